#include "vh.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace vh {

	uint64_t hash(const std::string &s, uint64_t h) {
		for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 0x100000001b3ull; }
		return h;
	}

	enum { MAXC = 384, NAMELEN = 56, DESC = 16384 };
	struct Shared {
		uint64_t magic;
		uint64_t current;      // case being run
		uint64_t running;      // 1 while inside a case
		uint64_t done;         // cases finished
		uint64_t nhash;
		uint64_t ncount;
		uint64_t finished;     // 1 when the loop ran to its end
		uint64_t desc_len;
		struct { char name[NAMELEN]; uint64_t n; } counters[MAXC];
		char desc[DESC];
		uint64_t hashes[1];
	};
	static Shared *sh = 0;
	static uint64_t maxhash = 0;
	static int logfd = -1;
	static bool muted = false;
	static bool case_violated = false;
	static int nsamples = 0;
	static std::string scratch_dir;
	static std::map<std::string, std::string> *extra = 0;
	static bool replaying = false;

	std::string arg(const char *name, const char *def) {
		std::map<std::string, std::string>::iterator i = extra->find(name);
		return i == extra->end() ? std::string(def) : i->second;
	}

	std::string scratch() { return scratch_dir; }

	void count(const char *name, uint64_t n) {
		if (muted || !sh) return;
		for (uint64_t i = 0; i < sh->ncount; ++i) {
			if (strncmp(sh->counters[i].name, name, NAMELEN - 1) == 0) { sh->counters[i].n += n; return; }
		}
		if (sh->ncount >= MAXC) return;
		strncpy(sh->counters[sh->ncount].name, name, NAMELEN - 1);
		sh->counters[sh->ncount].n = n;
		++sh->ncount;
	}

	void nontrivial(uint64_t h) {
		if (muted || !sh) return;
		if (sh->nhash < maxhash) sh->hashes[sh->nhash++] = h;
	}

	std::string jstr(const std::string &s) {
		std::string o = "\"";
		for (size_t i = 0; i < s.size(); ++i) {
			unsigned char c = s[i];
			char b[8];
			if (c == '"' || c == '\\') { o += '\\'; o += c; }
			else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
			else o += c;
		}
		return o + "\"";
	}

	std::string printable(const std::string &s, size_t max) {
		std::string o;
		for (size_t i = 0; i < s.size() && o.size() < max; ++i) {
			unsigned char c = s[i];
			char b[8];
			if (c == '\n') o += "\\n";
			else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof(b), "\\x%02x", c); o += b; }
			else o += c;
		}
		if (o.size() >= max) o += "...";
		return o;
	}

	static void logline(const std::string &l) {
		std::string s = l + "\n";
		size_t off = 0;
		while (off < s.size()) {
			ssize_t n = write(logfd, s.data() + off, s.size() - off);
			if (n <= 0) _exit(90);
			off += n;
		}
	}

	void sample(const std::string &text) {
		if (muted || nsamples >= 4) return;
		++nsamples;
		logline("{\"sample\": " + jstr(text.substr(0, 1500)) + "}");
	}

	void violation(const std::string &key, const std::string &msg) {
		case_violated = true;
		if (muted) return;
		logline("{\"violation\": " + jstr(key) + ", \"case\": " + cat(sh->current) + ", \"msg\": " + jstr(msg.substr(0, 4000)) + "}");
		if (replaying) fprintf(stderr, "VIOLATION key=%s %s\n", key.c_str(), msg.c_str());
	}

	void describe(const std::string &text) {
		if (!sh) return;
		size_t n = text.size() < DESC ? text.size() : (size_t)DESC;
		memcpy(sh->desc, text.data(), n);
		sh->desc_len = n;
		if (replaying) fprintf(stderr, "CASE %s\n", printable(text, 4000).c_str());
	}

	void harness_error(const std::string &msg) {
		fprintf(stderr, "HARNESS-ERROR %s\n", msg.c_str());
		_exit(91);
	}

	static void on_cpu(int) { _exit(77); }

	static size_t allocated() {
		return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
	}

	static void arm(int s) {
		struct itimerval t;
		memset(&t, 0, sizeof(t));
		t.it_value.tv_sec = s;
		setitimer(ITIMER_PROF, &t, 0);
	}

	static void one(CaseFn &fn, Ctx &c) {
		try {
			fn(c);
		} catch (const Fail &f) {
			violation(f.key, f.msg);
		} catch (const std::exception &e) {
			int st = 0;
			char *n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
			std::string name = n ? n : typeid(e).name();
			free(n);
			violation("unexpected-exception:" + name, std::string(e.what()) + " | " + std::string(sh->desc, sh->desc_len));
		} catch (...) {
			violation("unexpected-exception:unknown", "");
		}
	}

	static std::vector<std::pair<std::string, CaseFn> > *probes;
	void add_probe(const char *name, CaseFn fn) {
		if (!probes) probes = new std::vector<std::pair<std::string, CaseFn> >();
		probes->push_back(std::make_pair(std::string(name), fn));
	}

	int run(int argc, char **argv, CaseFn fn, Opts o) {
		if (argc >= 2 && std::string(argv[1]) == "--list-probes") {
			for (size_t i = 0; probes && i < probes->size(); ++i) printf("%s\n", (*probes)[i].first.c_str());
			return 0;
		}
		uint64_t seed = 1, from = 0, to = 0;
		bool thorough = false;
		std::string stats, log;
		extra = new std::map<std::string, std::string>();
		for (int i = 1; i + 1 < argc; i += 2) {
			std::string a = argv[i], v = argv[i + 1];
			if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
			else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
			else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
			else if (a == "--stats") stats = v;
			else if (a == "--log") log = v;
			else if (a == "--scratch") scratch_dir = v;
			else if (a == "--tier") thorough = (v == "thorough");
			else if (a == "--replay") replaying = (v == "1");
			else if (a.compare(0, 2, "--") == 0) (*extra)[a.substr(2)] = v;
		}
		if (stats.empty() || log.empty()) { fprintf(stderr, "usage: --seed --from --to --stats --log --scratch\n"); return 92; }
		if (extra->count("probe")) {
			bool found = false;
			for (size_t i = 0; probes && i < probes->size(); ++i) {
				if ((*probes)[i].first == (*extra)["probe"]) { fn = (*probes)[i].second; found = true; }
			}
			if (!found) { fprintf(stderr, "no such probe\n"); return 92; }
			from = 0; to = 1;
		}
		logfd = open(log.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
		maxhash = to > from ? (to - from) * 4 + 64 : 64;
		size_t size = sizeof(Shared) + 8 * maxhash;
		int fd = open(stats.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (logfd < 0 || fd < 0 || ftruncate(fd, size) != 0) { fprintf(stderr, "cannot open stats/log\n"); return 93; }
		sh = (Shared *)mmap(0, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (sh == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); return 94; }
		close(fd);
		sh->magic = 0x56484d41;
		signal(SIGPROF, on_cpu);
		signal(SIGPIPE, SIG_IGN);
		for (uint64_t i = from; i < to; ++i) {
			sh->current = i;
			sh->desc_len = 0;
			sh->running = 1;
			case_violated = false;
			Ctx c;
			c.seed = seed; c.index = i; c.thorough = thorough; c.replay = replaying; c.rerun = false;
			c.rng = Rng(mix(seed, i));
			size_t before = allocated();
			arm(o.cpu_s);
			one(fn, c);
			if (o.leak && !case_violated) {
				size_t after = allocated();
				if (after > before) {
					// Memory grew: caches and lazily built statics grow once, a leak grows each time.
					muted = true;
					int grew = 0;
					size_t last = after, inc = 0;
					for (int k = 0; k < 4; ++k) {
						c.rng = Rng(mix(seed, i));
						c.rerun = true;
						arm(o.cpu_s);
						one(fn, c);
						size_t now = allocated();
						if (now > last) { ++grew; inc = now - last; }
						last = now;
					}
					muted = false;
					if (grew == 4 && !case_violated) {
						violation("leak", cat("memory still held after the case grows by ", inc, " bytes on each repetition | ", printable(std::string(sh->desc, sh->desc_len), 2000)));
					}
				}
			}
			arm(0);
			sh->running = 0;
			++sh->done;
		}
		sh->finished = 1;
		return 0;
	}
}
