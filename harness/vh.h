// Shared harness runtime: deterministic case loop, shared-memory statistics,
// violation log, per-case leak and CPU-hang watch.
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <stdexcept>

namespace vh {

	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed = 0) : s(seed) {}
		uint64_t next() {
			uint64_t z = (s += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		uint64_t below(uint64_t n) { return n ? next() % n : 0; }
		int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo) + 1); }
		bool chance(unsigned num, unsigned den) { return below(den) < num; }
		bool coin() { return next() & 1; }
		template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
		template<typename T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
	};

	uint64_t hash(const std::string &s, uint64_t h = 0xcbf29ce484222325ull);
	inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull)); return r.next(); }

	// Thrown by a harness to end the current case with a violation.
	struct Fail : public std::exception {
		Fail(const std::string &k, const std::string &m) : key(k), msg(m) {}
		~Fail() throw() {}
		const char *what() const throw() { return msg.c_str(); }
		std::string key, msg;
	};

	struct Ctx {
		Rng rng;
		uint64_t seed, index;
		bool thorough;
		bool replay;      // a single case is being replayed: be verbose
		bool rerun;       // leak confirmation rerun
	};

	// Record an observed event class.
	void count(const char *name, uint64_t n = 1);
	// Mark the running case as non-trivial with this state/shape hash.
	void nontrivial(uint64_t h);
	// Offer a written-out case as a sample for the evidence file.
	void sample(const std::string &text);
	// Record a violation without ending the case.
	void violation(const std::string &key, const std::string &msg);
	// Text of the case's input, kept for the report if the case crashes.
	void describe(const std::string &text);
	// Harness failure: not a verdict.
	void harness_error(const std::string &msg);

	std::string scratch();   // private scratch directory (created, removed by the driver)
	std::string arg(const char *name, const char *def = "");  // extra --name value argument
	std::string printable(const std::string &s, size_t max = 400);
	std::string jstr(const std::string &s);

	struct Opts {
		Opts() : leak(true), cpu_s(25), stable_alloc(true) {}
		bool leak;
		int cpu_s;
		bool stable_alloc;
	};
	typedef std::function<void(Ctx &)> CaseFn;
	int run(int argc, char **argv, CaseFn fn, Opts o = Opts());

	// A named, deterministic case with a fixed input, run in a process of its own.
	void add_probe(const char *name, CaseFn fn);

	template<typename A> std::string cat(const A &a) { std::ostringstream o; o << a; return o.str(); }
	template<typename A, typename... R> std::string cat(const A &a, const R &... r) {
		std::ostringstream o; o << a; return o.str() + cat(r...);
	}
}

#define VH_CHECK(cond, key, ...) do { if (!(cond)) { throw vh::Fail((key), vh::cat(__VA_ARGS__)); } } while (0)

#endif
