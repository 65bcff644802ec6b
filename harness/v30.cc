// V30: the varsh tool. Every command line is run as a program of its own; what
// it prints and how it ends is compared with the same steps done by a model of
// paths and the public functions of the library.
#include "io.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <Variant/Extensions.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
using namespace vh;
using namespace libvariant;

typedef std::vector<std::string> Strs;
extern char **environ;

static std::string dir() { static std::string d = scratch(); return d; }
static std::string put(const std::string &name, const std::string &text) {
	std::string p = cat(dir(), "/", name);
	std::ofstream o(p.c_str(), std::ios::binary);
	o << text;
	o.close();
	if (!o) harness_error("cannot write " + p);
	return p;
}
static std::string slurp(const std::string &p) {
	std::ifstream i(p.c_str(), std::ios::binary);
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}

struct Outcome { int status; bool signalled; std::string out, err; };

static Outcome run_tool(const Strs &args, const std::string &in, const std::string &stdout_to) {
	static const std::string tool = arg("varsh");
	if (tool.empty()) harness_error("--varsh is needed");
	std::string out = stdout_to.empty() ? dir() + "/stdout" : stdout_to, err = dir() + "/stderr";
	std::vector<char *> av;
	av.push_back((char *)tool.c_str());
	for (size_t i = 0; i < args.size(); ++i) av.push_back((char *)args[i].c_str());
	av.push_back(0);
	posix_spawn_file_actions_t fa;
	posix_spawn_file_actions_init(&fa);
	posix_spawn_file_actions_addopen(&fa, 0, in.c_str(), O_RDONLY, 0);
	posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	posix_spawn_file_actions_addopen(&fa, 2, err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	pid_t pid;
	int e = posix_spawn(&pid, tool.c_str(), &fa, 0, &av[0], environ);
	posix_spawn_file_actions_destroy(&fa);
	if (e) harness_error(cat("cannot run ", tool, ": ", strerror(e)));
	int st, waited = 0;
	while (true) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (w < 0 && errno != EINTR) harness_error("waitpid");
		if (++waited > 120000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); throw Fail("hang", "no end after 60 seconds"); }
		usleep(500);
	}
	Outcome o;
	o.signalled = WIFSIGNALED(st);
	o.status = o.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
	if (stdout_to.empty()) o.out = slurp(out);
	o.err = slurp(err);
	return o;
}

// ---------------------------------------------------------------- model

struct Place { Place(const std::string &k) : key(k), index(-1) {} Place(int i) : index(i) {} std::string key; int index; };

static std::string path_text(const std::vector<Place> &p) {
	Path l;
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i].index >= 0) l.push_back(PathElement(p[i].index));
		else l.push_back(PathElement(p[i].key));
	}
	return PathString(l);
}
// A place that is there; the path is empty when the document holds nothing.
static std::vector<Place> pick_place(Rng &r, const MV &d) {
	std::vector<Place> p;
	const MV *v = &d;
	while (true) {
		if (v->k == K_LIST && !v->l.empty()) {
			int i = r.below(v->l.size());
			p.push_back(Place(i));
			v = &v->l[i];
		} else if (v->k == K_MAP && !v->m.empty()) {
			std::map<std::string, MV>::const_iterator i = v->m.begin();
			std::advance(i, r.below(v->m.size()));
			p.push_back(Place(i->first));
			v = &i->second;
		} else break;
		if (r.coin()) break;
	}
	return p;
}
static MV *at(MV &d, const std::vector<Place> &p) {
	MV *v = &d;
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i].index >= 0) v = &v->l[p[i].index];
		else v = &v->m[p[i].key];
	}
	return v;
}
static bool empty_key(const std::vector<Place> &p) {
	for (size_t i = 0; i < p.size(); ++i) if (p[i].index < 0 && p[i].key.empty()) return true;
	return false;
}

struct Bad : public std::exception { };      // the tool must end with an error

struct Plan {
	Plan() : in(0), out(0), guess(false), payload_in(false), payload(false), list(false), len(false), flatten(0), set(false), schema(0) {}
	int in, out;
	bool guess, payload_in, payload, list, len;
	int flatten;                // 1 flatten, 2 expand
	Variant fparams, sparams;
	std::vector<Place> path;
	std::string path_arg;
	bool set;
	MV value;
	int schema;                 // 0 none, 1 holds, 2 does not hold, 3 cannot be found
};

static const char IN_SHORT[] = { 'J', 'Y', 'X', 'B' };
static const char OUT_SHORT[] = { 'j', 'y', 'x', 'b' };
static const char *IN_LONG[] = { "--json-in", "--yaml-in", "--xml-in", "--bundlehdr-in" };
static const char *OUT_LONG[] = { "--json", "--yaml", "--xml", "--bundlehdr" };

static bool flat_text(const std::string &s) { return !s.empty() && s.size() < 60; }

// What the tool prints for this input, or Bad.
static std::string expected(const Plan &p, const std::string &text) {
	SerializeType it = p.guess ? SERIALIZE_GUESS : FORMATS[p.in];
	try {
		Variant v = p.payload_in ? DeserializeWithPayload(text, it) : Deserialize(text, it);
		if (p.flatten == 1) v = FlattenPath(v, p.fparams);
		else if (p.flatten == 2) v = ExpandPath(v, p.fparams);
		if (p.schema >= 2) throw Bad();
		if (p.set && p.path_arg.empty()) v = to_variant(p.value);
		else if (!p.path_arg.empty()) {
			if (p.flatten) {
				if (p.set) v.SetPath(p.path_arg, to_variant(p.value));
				else v = v.GetPath(p.path_arg);
			} else {
				MV m = from_variant(v);
				MV *w = at(m, p.path);
				if (p.set) *w = p.value;
				else { MV x = *w; m = x; }
				v = to_variant(m);
			}
		}
		if (p.list) {
			MV m = from_variant(v);
			if (m.k != K_MAP && m.k != K_NULL) throw Bad();
			std::string s;
			for (std::map<std::string, MV>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) s += i->first + "\n";
			return s;
		}
		if (p.len) {
			MV m = from_variant(v);
			if (m.k == K_LIST) return cat(m.l.size(), "\n");
			if (m.k == K_MAP) return cat(m.m.size(), "\n");
			return cat(v.Size(), "\n");
		}
		if (p.payload) return SerializeWithPayload(v, FORMATS[p.out], p.sparams);
		return Serialize(v, FORMATS[p.out], p.sparams) + "\n";
	} catch (const Bad &) { throw; }
	catch (const Fail &) { throw; }
	catch (const std::exception &) { throw Bad(); }
}

static std::string joined(Rng &r, Strs &a, const std::string &name, const std::string &value) {
	if (r.coin() && value[0] != '-' && !value.empty()) { a.push_back(name); a.push_back(value); }
	else a.push_back(name + "=" + value);
	return name;
}

static MV simple_doc(Rng &r, int t) {
	if (t == 3 || !r.coin()) return gen_doc(r, FORMATS[t], false);
	MV m = MV::Map();
	for (int n = r.range(1, 5); n > 0; --n) {
		Gen g;
		g.max_depth = 2; g.xml_safe = true; g.blobs = false; g.big_strings = false; g.ctrl = false; g.nulls = false; g.empty_containers = false;
		m.m[cat("k", r.below(8))] = gen(r, g);
	}
	return m;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	Plan p;
	Strs a;
	p.in = r.below(4);
	p.out = r.chance(1, 3) ? 0 : (int)r.below(4);
	const char *fault = "";
	int what = r.below(16);             // most lines are fine
	// several inputs need the same path in each: the same document again
	MV doc = simple_doc(r, p.in);
	if (r.chance(1, 12)) { p.payload_in = true; }
	std::vector<std::string> texts;
	int n = r.chance(1, 4) ? r.range(2, 4) : 1;
	bool from_stdin = n == 1 && r.coin();
	for (int i = 0; i < n; ++i) {
		Variant v = to_variant(doc, r);
		if (p.payload_in) {
			if (!v.IsMap()) { v = Variant::MapType; v["k1"] = 5; doc = from_variant(v); }
			std::string bytes = gen_bytes(r, 3000);
			if (p.in == 3) v[VARIANT_BUNDLE_PAYLOAD_DATA_PATH] = Variant(make_blob(bytes, &r)); else v.SetPath(VARIANT_PAYLOAD_DATA_PATH, Variant(make_blob(bytes, &r)));
			std::string t = SerializeWithPayload(v, FORMATS[p.in]);
			texts.push_back(t);
		} else {
			Variant params = gen_params(r, FORMATS[p.in]);
			texts.push_back(Serialize(v, FORMATS[p.in], params));
		}
	}
	if (p.in != 3 && r.chance(1, 3)) {
		p.guess = true;
		if (r.coin()) a.push_back(r.coin() ? "-G" : "--guess");
	} else a.push_back(r.coin() ? std::string("-") + IN_SHORT[p.in] : std::string(IN_LONG[p.in]));
	if (p.payload_in) a.push_back(r.coin() ? "-P" : "--payload-in");
	if (p.out != 0 || r.coin()) a.push_back(r.coin() ? std::string("-") + OUT_SHORT[p.out] : std::string(OUT_LONG[p.out]));

	// what the documents look like once read
	MV read;
	bool readable = true;
	try { read = from_variant(p.payload_in ? DeserializeWithPayload(texts[0], p.guess ? SERIALIZE_GUESS : FORMATS[p.in]) : Deserialize(texts[0], p.guess ? SERIALIZE_GUESS : FORMATS[p.in])); } catch (const std::exception &) { readable = false; }
	if (!readable && !p.guess) throw Fail("unreadable", "the library does not read its own text");

	// layout
	p.sparams = Variant::MapType;
	p.sparams["pretty"] = true;
	if (r.chance(1, 3)) { bool b = r.coin(); p.sparams["pretty"] = b; joined(r, a, "--pretty", b ? "true" : "false"); count("pretty"); }
	if (r.chance(1, 4)) { int i = p.out == 1 ? r.range(2, 9) : r.range(0, 9); p.sparams["indent"] = i; joined(r, a, "--indent", cat(i)); count("indent"); }
	if (r.chance(1, 5)) { int i = r.range(1, 17); p.sparams["precision"] = i; joined(r, a, "--precision", cat(i)); count("precision"); }
	if (p.out == 1) {
		static const char *styles[] = { "any", "block", "flow" };
		static const char *scalars[] = { "any", "plain", "single quoted", "double quoted", "folded" };
		if (r.chance(1, 3)) { int i = r.range(20, 200); p.sparams["width"] = i; joined(r, a, "--width", cat(i)); count("width"); }
		if (r.chance(1, 3)) { const char *s = styles[r.below(3)]; p.sparams["map_style"] = s; joined(r, a, "--map-style", s); count("map-style"); }
		if (r.chance(1, 3)) { const char *s = styles[r.below(3)]; p.sparams["list_style"] = s; joined(r, a, "--list-style", s); count("list-style"); }
		if (r.chance(1, 6)) { const char *s = scalars[r.below(5)]; p.sparams["scalar_style"] = s; joined(r, a, "--scalar-style", s); count("scalar-style"); }
		if (r.chance(1, 4)) { bool b = r.coin(); p.sparams["implicit_document_begin"] = b; joined(r, a, "--implicit-document-begin", b ? "true" : "false"); count("document-begin"); }
		if (r.chance(1, 4)) { bool b = r.coin(); p.sparams["implicit_document_end"] = b; joined(r, a, "--implicit-document-end", b ? "true" : "false"); count("document-end"); }
	}
	if (r.chance(1, 10)) { p.payload = true; a.push_back(r.coin() ? "-p" : "--payload"); }

	// flatten or expand
	if (read.k == K_MAP && r.chance(1, 6)) {
		p.flatten = r.coin() ? 1 : 2;
		a.push_back(p.flatten == 1 ? (r.coin() ? "-f" : "--flatten-path") : (r.coin() ? "-e" : "--expand-path"));
		p.fparams = Variant::MapType;
		p.fparams["noSimpleLists"] = false;
		p.fparams["pathPrefix"] = "";
		p.fparams["pathDelimiter"] = "/";
		p.fparams["indexPrefix"] = "[";
		p.fparams["indexSuffix"] = "]";
		p.fparams["listDelimiter"] = ",";
		if (r.chance(1, 3)) { bool b = r.coin(); p.fparams["noSimpleLists"] = b; joined(r, a, "--no-simple-lists", b ? "true" : "false"); }
		if (r.chance(1, 3)) { const char *s = r.coin() ? "." : ":"; p.fparams["pathDelimiter"] = s; joined(r, a, "--path-delimiter", s); }
		if (r.chance(1, 3)) { const char *s = r.coin() ? "@" : "!"; p.fparams["pathPrefix"] = s; joined(r, a, "--path-prefix", s); }
		if (r.chance(1, 3)) { const char *s = r.coin() ? "<" : "("; p.fparams["indexPrefix"] = s; joined(r, a, "--index-prefix", s); }
		if (r.chance(1, 3)) { const char *s = r.coin() ? ">" : ")"; p.fparams["indexSuffix"] = s; joined(r, a, "--index-suffix", s); }
		if (r.chance(1, 3)) { const char *s = r.coin() ? ";" : "|"; p.fparams["listDelimiter"] = s; joined(r, a, "--list-delimiter", s); }
		count(p.flatten == 1 ? "flatten" : "expand");
	}

	// path and action
	bool absent = false;
	if (readable && !p.flatten && r.chance(2, 5)) {
		p.path = pick_place(r, read);
		if (!p.path.empty() && !empty_key(p.path)) {
			p.path_arg = path_text(p.path);
			if (p.path_arg.size() > 2000 || p.path_arg.find('\0') != std::string::npos) { p.path.clear(); p.path_arg.clear(); }
		} else p.path.clear();
		if (!p.path_arg.empty()) { joined(r, a, "--path", p.path_arg); count("path"); }
	}
	int action = r.below(8);
	if (action == 0) { p.list = true; a.push_back("--list"); }
	else if (action == 1) { p.len = true; a.push_back("--length"); }
	else if (action == 2) {
		static const char *words[] = { "word", "two words", "\xc3\xa9t\xc3\xa9", "a=b", "x/y" };
		p.set = true;
		std::string s;
		switch (r.below(4)) {
		case 0: { int i = r.range(-1000, 100000); s = cat(i); p.value = MV::Int(i); break; }
		case 1: { bool b = r.coin(); s = b ? "true" : "false"; p.value = MV::Bool(b); break; }
		case 2: { int i = r.range(-99, 99); s = cat(i, ".5"); p.value = MV::Float(strtod(s.c_str(), 0)); break; }
		default: s = words[r.below(5)]; p.value = MV::Str(s);
		}
		joined(r, a, "--set", s);
		count("set");
	} else if (action == 3) {
		Gen g;
		g.max_depth = 2; g.blobs = false; g.big_strings = false; g.ctrl = false;
		p.value = gen_container(r, g);
		p.set = true;
		std::string t = Serialize(to_variant(p.value), SERIALIZE_JSON);
		// read by guessing: see V18 for what guessing does to some JSON text
		try { p.value = from_variant(DeserializeGuess(t)); } catch (const std::exception &) { p.value = MV::List(); t = "[]"; }
		joined(r, a, "--set-file", put("set", t));
		count("set-file");
	}

	// schemas
	if (readable && !p.flatten && r.chance(1, 4)) {
		const char *kind = read.k == K_MAP ? "object" : read.k == K_LIST ? "array" : read.k == K_STR ? "string" : read.k == K_BOOL ? "boolean" : 0;
		if (kind) {
			p.schema = r.chance(2, 3) ? 1 : 2;
			std::string good = cat("{\"type\":\"", kind, "\"}"), bad = cat("{\"not\":{\"type\":\"", kind, "\"}}");
			int k = r.range(1, 3), which = r.below(k);
			bool search = r.coin();
			if (search) joined(r, a, "--schema-path", dir());
			for (int i = 0; i < k; ++i) {
				std::string name = cat("schema", i, ".json"), full = put(name, p.schema == 2 && i == which ? bad : good);
				joined(r, a, "--schema", search ? name : r.coin() ? full : "file://" + full);
			}
			count(p.schema == 1 ? "schema-holds" : "schema-fails");
		}
	}

	// outputs and inputs
	std::string output;
	if (r.chance(1, 4)) { output = dir() + "/output"; unlink(output.c_str()); if (r.coin()) put("output", std::string(r.range(1, 20000), '#')); }
	Strs inputs;
	if (!from_stdin) for (int i = 0; i < n; ++i) inputs.push_back(put(cat("in", i), texts[i]));
	std::string in = from_stdin ? put("stdin", texts[0]) : std::string("/dev/null"), out;
	bool bad = false;
	std::string noise;                 // an argument that belongs at the front
	switch (what) {
	case 0: if (!from_stdin) { size_t i = r.below(n); fault = "missing-input"; inputs[i] = dir() + "/nothing"; unlink(inputs[i].c_str()); bad = true; } break;
	case 1: if (!from_stdin) { fault = "directory-input"; inputs[r.below(n)] = dir(); bad = true; } break;
	case 2: if (!from_stdin && !p.guess && (p.in == 0 || p.in == 2) && !p.payload_in) { fault = "cut-input"; size_t i = r.below(n); std::string t = texts[i]; while (!t.empty() && strchr(" \r\n\t", t[t.size() - 1])) t.resize(t.size() - 1); t.resize(r.below(t.size())); put(cat("in", i), t); bad = true; } break;
	case 3: output = dir() + "/no/such/output"; fault = "unwritable-output"; bad = true; break;
	case 4: if (p.set || !p.path_arg.empty()) break; fault = "absent-path"; a.push_back("--path=none/such"); bad = read.m.find("none") == read.m.end(); if (!bad) { count("skipped"); return; } break;
	case 5: fault = "full-output"; output = "/dev/full"; bad = true; break;
	case 6: output = ""; out = "/dev/full"; fault = "full-standard-output"; bad = true; break;
	case 7: fault = "unknown-option"; a.push_back("--no-such-option"); bad = true; break;
	case 8: if (p.guess) break; fault = "two-formats"; a.push_back(cat("-", IN_SHORT[(p.in + 1) % 4])); bad = true; break;
	case 9: fault = "missing-schema"; a.push_back("--schema=" + dir() + "/no-schema.json"); bad = true; break;
	default: ;
	}
	if (!output.empty()) { if (r.coin()) { a.push_back("-o"); a.push_back(output); } else joined(r, a, "--out", output); }
	for (size_t i = 0; i < inputs.size(); ++i) {
		if (r.coin() && i == 0) a.insert(a.begin(), inputs[i]);
		else a.push_back(inputs[i]);
	}
	// -e and -f do not exclude each other; flattening comes first in the documentation order
	std::string want;
	bool fails = bad;
	try {
		for (int i = 0; i < n; ++i) want += expected(p, texts[i]);
	} catch (const Bad &) { fails = true; }
	// writing nothing to a full device is not a failure
	if (bad && want.empty() && (what == 5 || what == 6)) { count("skipped"); return; }

	std::string line = "varsh";
	for (size_t i = 0; i < a.size(); ++i) line += " '" + printable(a[i], 200) + "'";
	describe(cat(line, from_stdin ? " < " : " with ", printable(texts[0], 1500)));
	Outcome o = run_tool(a, in, out);
	std::string ctx = cat(line, " | input ", printable(texts[0], 600), " | ", printable(o.err, 800));
	VH_CHECK(!o.signalled, cat("signal-", o.status), ctx);
	VH_CHECK(o.status != 99 && o.status < 128, "sanitizer", ctx);
	if (fails) {
		VH_CHECK(o.status != 0, cat("success-", *fault ? fault : "unfit"), ctx, " | printed ", printable(o.out, 300));
		VH_CHECK(!o.err.empty(), cat("silent-", *fault ? fault : "unfit"), ctx);
		count(*fault ? fault : "unfit");
	} else {
		VH_CHECK(o.status == 0, "failure", "status ", o.status, " ", ctx);
		std::string got = output.empty() ? o.out : slurp(output);
		VH_CHECK(got == want, p.list ? "list" : p.len ? "length" : p.set ? "set" : p.payload ? "payload" : "printed", "got ", printable(got, 600), " instead of ", printable(want, 600), " | ", ctx);
		VH_CHECK(output.empty() || o.out.empty(), "both-outputs", printable(o.out), " ", ctx);
		count(format_name(FORMATS[p.out]));
		count(cat("from-", format_name(FORMATS[p.in])).c_str());
		if (p.list) count("list");
		if (p.len) count("length");
		if (p.payload) count("payload");
		if (p.payload_in) count("payload-in");
		if (p.guess) count("guessed");
		if (n > 1) count("several-inputs");
		if (from_stdin) count("standard-input");
		if (!output.empty()) count("output-file");
	}
	nontrivial(mix(hash(line), hash(texts[0])));
	sample(cat(printable(line, 300), fails ? " fails" : " succeeds"));
}
int main(int argc, char **argv) {
	return vh::run(argc, argv, one);
}
