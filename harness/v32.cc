// V32: what is written and read does not depend on the program's locale.
#include "io.h"
#include <Variant/ArgParse.h>
#include <Variant/Extensions.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <locale.h>
#include <locale>
#include <math.h>
#include <memory>
#include <unistd.h>
#include <sys/wait.h>
using namespace vh;
using namespace libvariant;

static const char *NAMES[] = { "de_DE.UTF-8", "fr_FR.UTF-8", "ps_AF.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1" };

struct Marks : public std::numpunct<char> {
	char point, sep;
	std::string groups;
	Marks(char p, char s, const std::string &g) : point(p), sep(s), groups(g) {}
	char do_decimal_point() const { return point; }
	char do_thousands_sep() const { return sep; }
	std::string do_grouping() const { return groups; }
	std::string do_truename() const { return "wahr"; }
	std::string do_falsename() const { return "falsch"; }
};

// What the program's locale is while the library works.
struct Place {
	enum How { PLAIN, C_ALL, C_NUMERIC, THREAD, CPP_NAMED, CPP_MARKS, BOTH, HOWS };
	How how;
	std::string name;
	std::locale cpp;
	std::string text;
};
static const char *HOW[] = { "plain", "c-all", "c-numeric", "thread", "c++-named", "c++-marks", "c-and-c++" };

static std::locale marks(Rng &r, std::string &text) {
	static const char *g[] = { "\3", "\1", "\2\3", "\3\2", "" };
	static const char pts[] = ",'.x";
	static const char seps[] = ".,' _";
	char p = pts[r.below(4)], s = seps[r.below(5)];
	size_t k = r.below(5);
	if (k == 4 && p == '.') p = ',';
	text += cat("numpunct(", p, s, k, ")");
	return std::locale(std::locale::classic(), new Marks(p, s, g[k]));
}
static Place place(Rng &r) {
	Place p;
	p.how = (Place::How)(1 + r.below(Place::HOWS - 1));
	p.name = NAMES[r.below(5)];
	p.text = HOW[p.how];
	if (p.how == Place::CPP_MARKS || p.how == Place::BOTH) p.cpp = marks(r, p.text);
	else if (p.how == Place::CPP_NAMED) p.cpp = std::locale(p.name.c_str());
	if (p.how != Place::CPP_MARKS) p.text += " " + p.name;
	return p;
}
static Place plain() { Place p; p.how = Place::PLAIN; p.text = "the C locale"; p.cpp = std::locale::classic(); return p; }

struct Enter {
	const Place &p;
	locale_t mine;
	std::string was;
	explicit Enter(const Place &p_) : p(p_), mine((locale_t)0) {
		switch (p.how) {
		case Place::C_ALL: if (!setlocale(LC_ALL, p.name.c_str())) harness_error("no locale " + p.name); break;
		case Place::C_NUMERIC: if (!setlocale(LC_NUMERIC, p.name.c_str())) harness_error("no locale " + p.name); break;
		case Place::THREAD:
			mine = newlocale(LC_ALL_MASK, p.name.c_str(), (locale_t)0);
			if (!mine) harness_error("no locale " + p.name);
			uselocale(mine);
			break;
		case Place::BOTH: if (!setlocale(LC_ALL, p.name.c_str())) harness_error("no locale " + p.name); std::locale::global(p.cpp); break;
		case Place::CPP_NAMED: case Place::CPP_MARKS: std::locale::global(p.cpp); break;
		default: break;
		}
		was = setlocale(LC_ALL, 0);
	}
	// The program's locale is as the program left it.
	bool kept() {
		if (was != setlocale(LC_ALL, 0)) return false;
		if (p.how >= Place::CPP_NAMED && !(std::locale() == p.cpp)) return false;
		return uselocale((locale_t)0) == (mine ? mine : LC_GLOBAL_LOCALE);
	}
	~Enter() {
		uselocale(LC_GLOBAL_LOCALE);
		if (mine) freelocale(mine);
		std::locale::global(std::locale::classic());
		setlocale(LC_ALL, "C");
	}
};

struct Out { std::string label; bool refused; std::string text; MV value; };
typedef std::vector<Out> Outs;

struct Job {
	const char *name;
	std::string about;
	std::function<void(Outs &)> run;
};
static void put(Outs &o, const std::string &label, const std::function<void(Out &)> &f) {
	Out x;
	x.label = label;
	x.refused = false;
	try { f(x); }
	catch (const Fail &) { throw; }
	catch (const std::exception &) { x.refused = true; x.text.clear(); x.value = MV(); }
	o.push_back(x);
}

// ---------------------------------------------------------------- jobs

static double some_double(Rng &r) {
	switch (r.below(5)) {
	case 0: return (double)r.range(-999999, 999999) / 1000;
	case 1: return (double)r.range(-99, 99) * 1e6 + 0.5;
	case 2: return ldexp((double)r.range(1, 99999), r.range(-60, 60));
	case 3: return 123456.75;
	default: return gen_double(r, false);
	}
}
static MV some_number(Rng &r) {
	switch (r.below(4)) {
	case 0: return MV::Int(r.coin() ? r.range(-5000000, 5000000) : gen_int(r));
	case 1: return MV::Uint(r.coin() ? r.below(100000000) : gen_uint(r));
	default: return MV::Float(some_double(r));
	}
}
static MV numbers(Rng &r, SerializeType t) {
	MV m = MV::Map();
	for (int n = r.range(1, 6); n > 0; --n) {
		std::string k = cat("k", n);
		if (r.chance(1, 4)) { MV l = MV::List(); for (int j = r.range(2, 5); j > 0; --j) l.l.push_back(some_number(r)); m.m[k] = l; }
		else m.m[k] = some_number(r);
	}
	if (t != SERIALIZE_BUNDLEHDR && r.chance(1, 3)) { MV x = MV::Map(); x.m["in"] = m; m = x; }
	return m;
}
static std::string numeral(Rng &r, bool json) {
	std::string s = r.chance(1, 3) ? "-" : "";
	s += cat(r.coin() ? r.range(0, 9) : r.range(1000, 99999999));
	if (r.chance(3, 4)) { s += "."; s += cat(r.range(0, 99999)); }
	if (r.chance(1, 3)) s += cat(r.coin() ? "e" : "E", r.coin() ? "+" : r.coin() ? "-" : "", r.range(0, 30));
	if (json) return s;
	static const char *odd[] = { "1,5", "1.234.567", "1,234,567", ".5", "5.", "-.25e2", "0x1F", "0o17", ".inf", "-.Inf", ".nan", "1'000", "1 000", "1_000", "\xd9\xab" "5", "1\xd9\xab" "5", "wahr", "falsch", "true", "false", "12,", "0,5" };
	if (r.chance(1, 4)) return odd[r.below(sizeof(odd) / sizeof(*odd))];
	return s;
}

static Job job_write(Rng &r) {
	SerializeType t = FORMATS[r.below(4)];
	MV m = r.coin() ? numbers(r, t) : gen_doc(r, t);
	Variant params = r.coin() ? gen_params(r, t) : Variant(Variant::NullType);
	Variant v = to_variant(m);
	Job j = { "write", cat(format_name(t), " ", show(m)), Job().run };
	j.run = [=](Outs &o) { put(o, "text", [&](Out &x) { x.text = Serialize(v, t, params); }); };
	count(cat("write-", format_name(t)).c_str());
	return j;
}
static Job job_read(Rng &r) {
	SerializeType t = FORMATS[r.below(4)];
	MV m = r.coin() ? numbers(r, t) : gen_doc(r, t);
	std::string text = Serialize(to_variant(m), t, r.coin() ? gen_params(r, t) : Variant(Variant::NullType));
	if (r.chance(1, 3)) {
		std::vector<std::string> n;
		for (int k = r.range(1, 5); k > 0; --k) n.push_back(numeral(r, t == SERIALIZE_JSON));
		text = t == SERIALIZE_JSON ? "[" : t == SERIALIZE_XMLPLIST ? "<plist version=\"1.0\"><array>" : "";
		for (size_t i = 0; i < n.size(); ++i) switch (t) {
		case SERIALIZE_JSON: text += (i ? ", " : "") + n[i]; break;
		case SERIALIZE_YAML: text += "- " + n[i] + "\n"; break;
		case SERIALIZE_XMLPLIST: text += r.coin() ? "<real>" + n[i] + "</real>" : "<integer>" + n[i] + "</integer>"; break;
		default: text += cat("k", i, " : ", n[i], "\n");
		}
		text += t == SERIALIZE_JSON ? "]" : t == SERIALIZE_XMLPLIST ? "</array></plist>" : "";
		count(cat("numerals-", format_name(t)).c_str());
	}
	if (t == SERIALIZE_JSON || t == SERIALIZE_YAML) if (r.chance(1, 4)) t = SERIALIZE_GUESS;
	Job j = { "read", printable(text, 1500), Job().run };
	j.run = [=](Outs &o) { put(o, "document", [&](Out &x) { x.value = from_variant(Deserialize(text, t)); }); };
	count(t == SERIALIZE_GUESS ? "read-guess" : cat("read-", format_name(t)).c_str());
	return j;
}
static Job job_values(Rng &r) {
	MV n = some_number(r);
	std::string text = r.chance(1, 4) ? std::string("  ") + numeral(r, false) : numeral(r, false);
	Variant v = to_variant(n), s(text);
	Job j = { "values", cat(show(n), " and text ", printable(text)), Job().run };
	j.run = [=](Outs &o) {
		put(o, "number as text", [&](Out &x) { x.text = v.AsString(); });
		put(o, "text as float", [&](Out &x) { x.value = MV::Float(s.AsDouble()); });
		put(o, "text as integer", [&](Out &x) { x.value = MV::Int(s.AsInt()); });
		put(o, "text as unsigned", [&](Out &x) { x.value = MV::Uint(s.AsUnsigned()); });
		put(o, "text as boolean", [&](Out &x) { x.value = MV::Bool(s.AsBool()); });
		put(o, "boolean as text", [&](Out &x) { x.text = Variant(true).AsString() + Variant(false).AsString(); });
	};
	return j;
}
static Job job_paths(Rng &r) {
	std::string p;
	Path path;
	for (int n = r.range(1, 4); n > 0; --n) {
		if (r.coin()) { std::string k(1, 'a' + r.below(26)); p += "/" + k; path.push_back(k); }
		else { unsigned i = r.coin() ? r.range(0, 3) : r.range(1000, 2000000); p += cat("[", i, "]"); path.push_back(i); }
	}
	unsigned len = r.range(1001, 1200), at = r.range(1000, len - 1);
	std::string ptr = cat("/l/", at);
	Job j = { "paths", p + " and " + ptr, Job().run };
	j.run = [=](Outs &o) {
		put(o, "path text", [&](Out &x) { x.text = PathString(path); });
		put(o, "path read", [&](Out &x) { Path q = ParsePath(p); x.value = MV::List(); for (size_t i = 0; i < q.size(); ++i) x.value.l.push_back(q[i].IsString() ? MV::Str(q[i].AsString()) : MV::Uint(q[i].AsUnsigned())); });
		put(o, "pointer text", [&](Out &x) { x.text = FormJSONPointer(path); });
		Variant doc;
		doc["l"] = Variant::ListType;
		for (unsigned i = 0; i < len; ++i) doc["l"].Append(i);
		put(o, "pointer lookup", [&](Out &x) { x.value = from_variant(JSONPointerLookup(ptr, doc)); });
		put(o, "element by path", [&](Out &x) { char b[40]; snprintf(b, sizeof(b), "l[%u]", at); x.value = from_variant(doc.GetPath(b)); });
		Variant other = doc.Copy();
		other["l"][at] = "changed";
		put(o, "patch", [&](Out &x) { Variant d = JSONDiff(doc, other); x.text = SerializeJSON(d); Variant c = doc.Copy(); if (!JSONPatch(c, d).first) throw std::runtime_error("patch"); x.value = from_variant(c["l"][at]); });
	};
	return j;
}
static Job job_flatten(Rng &r) {
	unsigned len = r.range(1000, 1100);
	double f = some_double(r);
	bool simple = r.coin();
	Job j = { "flatten", cat(len, " elements, ", f), Job().run };
	j.run = [=](Outs &o) {
		Variant doc, p = ExtensionParams();
		p["noSimpleLists"] = !simple;
		doc["l"] = Variant::ListType;
		for (unsigned i = 0; i < len; ++i) doc["l"].Append(i);
		doc["l"][len - 1] = f;
		put(o, "flat", [&](Out &x) { x.value = from_variant(FlattenPath(doc, p)); });
		put(o, "text map", [&](Out &x) {
			std::map<std::string, std::string> m = FlattenPathToStrStrMap(doc, p);
			for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) x.text += i->first + "=" + i->second + "\n";
		});
		put(o, "flat and expanded", [&](Out &x) { x.value = from_variant(ExpandPath(FlattenPath(doc, p), p)); });
	};
	return j;
}
static Job job_payload(Rng &r) {
	SerializeType t = FORMATS[r.below(4)];
	MV m = numbers(r, t);
	std::string bytes = gen_bytes(r, 100, false) + std::string(r.coin() ? r.range(1000, 9999) : 0, 'p');
	m.m[t == SERIALIZE_BUNDLEHDR ? "payload.data" : "payload"] = t == SERIALIZE_BUNDLEHDR ? MV::Blob(bytes) : [&] { MV x = MV::Map(); x.m["data"] = MV::Blob(bytes); return x; }();
	Variant v = to_variant(m);
	std::string text = SerializeWithPayload(v, t);
	Job j = { "payload", cat(format_name(t), " ", show(m)), Job().run };
	j.run = [=](Outs &o) {
		put(o, "text", [&](Out &x) { x.text = SerializeWithPayload(v.Copy(), t); });
		put(o, "document", [&](Out &x) { x.value = from_variant(DeserializeWithPayload(text, t)); });
	};
	count(cat("payload-", format_name(t)).c_str());
	return j;
}
static Job job_schema(Rng &r) {
	double lo;
	do lo = some_double(r); while (fabs(lo) > 1e300);
	double hi = lo + fabs(lo) * r.range(0, 3) / 2.0, v = lo + (hi - lo) * r.range(-1, 5) / 4.0;
	char b[400];
	snprintf(b, sizeof(b), "{\"type\": \"object\", \"properties\": {\"v\": {\"type\": \"number\", \"minimum\": %.17g, \"maximum\": %.17g}, \"m\": {\"multipleOf\": %.17g}, \"s\": {\"pattern\": \"^[0-9]+[.][0-9]+$\"}, \"d\": {\"default\": %.17g}}}", lo, hi, r.coin() ? 0.25 : 1.5, lo);
	std::string schema = b;
	snprintf(b, sizeof(b), "{\"v\": %.17g, \"m\": %.17g, \"s\": \"%g\"}", v, r.range(1, 4000) * 0.25, 1.5);
	std::string doc = b;
	Job j = { "schema", schema + " for " + doc, Job().run };
	j.run = [=](Outs &o) {
		Variant s = DeserializeJSON(schema), d = DeserializeJSON(doc);
		put(o, "verdict", [&](Out &x) { SchemaResult sr = SchemaValidate(s, d); x.value = MV::List(); x.value.l.push_back(MV::Bool(sr.Error())); x.value.l.push_back(MV::Bool(sr.SchemaErrors())); });
		put(o, "defaults", [&](Out &x) { Variant c = d.Copy(); AddSchemaDefaults(c, s); x.value = from_variant(c); });
	};
	return j;
}
static Job job_options(Rng &r) {
	std::vector<std::string> line;
	line.push_back("prog");
	char b[60];
	snprintf(b, sizeof(b), "--float=%.17g", some_double(r));
	line.push_back(b);
	snprintf(b, sizeof(b), "--int=%d", r.range(-5000000, 5000000));
	line.push_back(b);
	line.push_back("--guess=" + numeral(r, false));
	for (int n = r.range(0, 3); n > 0; --n) { snprintf(b, sizeof(b), "--list=%g", some_double(r)); line.push_back(b); }
	std::string about;
	for (size_t i = 0; i < line.size(); ++i) about += line[i] + " ";
	Job j = { "options", about, Job().run };
	j.run = [=](Outs &o) {
		put(o, "options", [&](Out &x) {
			ArgParse a("prog");
			a.AddOption("float", 'f', "float").Type(ARGTYPE_FLOAT);
			a.AddOption("int", 'i', "int").Type(ARGTYPE_INT);
			a.AddOption("guess", 'g', "guess");
			a.AddOption("list", 'l', "list").Type(ARGTYPE_FLOAT).Action(ARGACTION_APPEND);
			a.AddOption("def", 'd', "def").Type(ARGTYPE_FLOAT).Default(1234.5);
			std::vector<char *> av;
			for (size_t i = 0; i < line.size(); ++i) av.push_back(const_cast<char *>(line[i].c_str()));
			av.push_back(0);
			// a refused line ends the process
			int fd[2];
			if (pipe(fd)) harness_error("pipe");
			fflush(0);
			pid_t pid = fork();
			if (pid == 0) {
				close(fd[0]);
				dup2(fd[1], 2);
				MV m = from_variant(a.Parse((int)line.size(), &av[0]));
				uselocale(LC_GLOBAL_LOCALE);
				std::locale::global(std::locale::classic());
				std::string s = show(m);
				_exit(write(fd[1], s.data(), s.size()) == (ssize_t)s.size() ? 0 : 3);
			}
			close(fd[1]);
			char buf[4096];
			for (ssize_t n; (n = read(fd[0], buf, sizeof(buf))) > 0;) x.text.append(buf, n);
			close(fd[0]);
			int st;
			while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
			if (st) x.text = "ended: " + x.text;
		});
	};
	return j;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	static Job (*const make[])(Rng &) = { job_write, job_write, job_read, job_read, job_read, job_values, job_values, job_paths, job_flatten, job_payload, job_schema, job_options };
	std::vector<Job> jobs;
	std::vector<Place> places;
	std::vector<Outs> want, got;
	for (int n = r.range(2, 7); n > 0; --n) {
		Job j = make[r.below(sizeof(make) / sizeof(*make))](r);
		if ((j.name == std::string("flatten") || j.name == std::string("paths")) && !r.chance(1, 4)) { ++n; continue; }
		jobs.push_back(j);
		places.push_back(place(r));
		want.push_back(Outs());
		j.run(want.back());
	}
	for (size_t i = 0; i < jobs.size(); ++i) {
		describe(cat(jobs[i].name, " in ", places[i].text, ": ", jobs[i].about));
		Outs o;
		bool kept;
		{
			Enter e(places[i]);
			jobs[i].run(o);
			kept = e.kept();
		}
		VH_CHECK(kept, cat("locale-changed:", jobs[i].name), "the program's locale is another after ", jobs[i].name, " in ", places[i].text, ": ", jobs[i].about);
		VH_CHECK(o.size() == want[i].size(), "results", jobs[i].name);
		for (size_t k = 0; k < o.size(); ++k) {
			const Out &a = want[i][k], &b = o[k];
			std::string key = cat(jobs[i].name, ":", a.label);
			std::string where = cat(" in ", places[i].text, ", ", jobs[i].name, " of ", jobs[i].about);
			VH_CHECK(a.refused == b.refused, key, a.label, b.refused ? " refused" : " not refused", where);
			VH_CHECK(a.text == b.text, key, a.label, " is ", printable(b.text), " instead of ", printable(a.text), where);
			EqOpt eq;
			eq.exact_int_kind = true;
			std::string d = diff(a.value, b.value, eq);
			VH_CHECK(d.empty(), key, a.label, " differs: ", d, where);
			count(a.refused ? "refused-alike" : "alike");
			nontrivial(hash(jobs[i].about, hash(places[i].text + a.label)));
		}
		count(jobs[i].name);
		count(HOW[places[i].how]);
		if (places[i].how != Place::CPP_MARKS) count(places[i].name.c_str());
	}
	if (r.chance(1, 50)) sample(cat(jobs[0].name, " in ", places[0].text, ": ", jobs[0].about));
}

int main(int argc, char **argv) {
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--locales")) setenv("LOCPATH", argv[i + 1], 1);
	Opts o;
	o.leak = false;      // setlocale keeps memory of its own
	return run(argc, argv, one, o);
}
