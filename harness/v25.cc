// V25 and V26: command-line parsing. Every command line is parsed in a forked
// child; a model of the declaration and of the conventions of GNU long options
// says what must come out. With --bad 1 (V26) most lines break one rule.
#include "model.h"
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <Variant/ArgParse.h>
#include <Variant/Schema.h>
using namespace vh;
using namespace libvariant;

typedef std::vector<std::string> Strs;

static bool bad_mode;

// ---------------------------------------------------------------- declaration

enum Type { T_GUESS, T_INT, T_UINT, T_FLOAT, T_STRING, T_BOOL };
enum Action { A_STORE, A_CONST, A_TRUE, A_FALSE, A_APPEND, A_COUNT, A_HELP, A_ADVHELP, A_CONFIG, A_PRINT };

struct Pattern { const char *regex; bool (*match)(const std::string &); const char *good[3]; const char *bad[3]; };
static bool p_lower(const std::string &s) { if (s.empty()) return false; for (size_t i = 0; i < s.size(); ++i) if (s[i] < 'a' || s[i] > 'z') return false; return true; }
static bool p_hex(const std::string &s) { if (s.size() < 2 || s.size() > 4) return false; for (size_t i = 0; i < s.size(); ++i) if (!strchr("0123456789abcdef", s[i])) return false; return true; }
static bool p_hasb(const std::string &s) { return s.find('b') != std::string::npos; }
static bool p_onoff(const std::string &s) { return s == "on" || s == "off"; }
static const Pattern PATTERNS[] = {
	{ "^[a-z]+$", p_lower, { "abc", "z", "hello" }, { "Abc", "a1", "" } },
	{ "^[0-9a-f]{2,4}$", p_hex, { "0f", "beef", "123" }, { "g0", "12345", "a" } },
	{ "b", p_hasb, { "abc", "b", "xb x" }, { "acd", "", "B" } },
	{ "^(on|off)$", p_onoff, { "on", "off", "on" }, { "onoff", "of", "ON" } },
};

struct Step { Step(const std::string &k) : key(k), index(-1) {} Step(int i) : index(i) {} std::string key; int index; };

struct Opt {
	Opt() : positional(false), flag(false), shortopt(0), action(A_STORE), type(T_GUESS), has_const(false), has_default(false), env_set(false),
		has_min(false), has_max(false), required(false), pattern(-1), minlen(-1), maxlen(-1), minargs(-1), maxargs(-1), group(-1), advanced(false), format(0) {}
	bool positional, flag;
	std::vector<Step> path;
	int shortopt;
	std::string longopt, help;
	Action action;
	Type type;
	bool has_const, has_default;
	MV cvalue, dvalue;
	std::string env, env_value;
	bool env_set;
	bool has_min, has_max;
	double min, max;
	std::vector<MV> choices;
	bool required;
	int pattern, minlen, maxlen, minargs, maxargs, group;
	bool advanced;
	int format;                 // of a configuration option: 0 guess, 1 JSON, 2 YAML, 3 property list

	bool hasarg() const { return action == A_STORE || action == A_APPEND || action == A_CONFIG; }
	bool hasresult() const { return action <= A_COUNT; }
	Type real() const {
		if (type != T_GUESS) return type;
		if (has_min || has_max) return T_FLOAT;
		if (pattern >= 0 || minlen >= 0 || maxlen >= 0) return T_STRING;
		return T_GUESS;
	}
	bool need() const { return required || (!positional && minargs > 0); }
	std::string pathtext() const {
		std::string s;
		for (size_t i = 0; i < path.size(); ++i) {
			if (path[i].index >= 0) s += cat("[", path[i].index, "]");
			else { if (i) s += "/"; s += path[i].key; }
		}
		return s;
	}
};
struct Group { Group() : exclusive(false), required(false), advanced(false) {} std::string name, title, description; std::vector<size_t> members; bool exclusive, required, advanced; };

struct Decl {
	Decl() : addhelp(true), config_defaults(false) {}
	std::vector<Opt> opts;      // declared options and positionals, in order
	std::vector<Group> groups;
	bool addhelp, config_defaults;
	bool anyadvanced() const {
		for (size_t i = 0; i < opts.size(); ++i) if (opts[i].advanced) return true;
		for (size_t i = 0; i < groups.size(); ++i) if (groups[i].advanced) return true;
		return false;
	}
	// Everything a command line can name.
	std::vector<Opt> all() const {
		std::vector<Opt> v = opts;
		if (config_defaults) {
			Opt c; c.longopt = "config"; c.action = A_CONFIG; v.push_back(c);
			Opt p; p.longopt = "print-config"; p.action = A_PRINT; v.push_back(p);
		}
		if (addhelp) {
			Opt h; h.longopt = "help"; h.action = A_HELP; h.shortopt = 'h';
			for (size_t i = 0; i < opts.size(); ++i) if (opts[i].shortopt == 'h') h.shortopt = 0;
			v.push_back(h);
			if (anyadvanced()) { Opt a; a.longopt = "adv-help"; a.action = A_ADVHELP; v.push_back(a); }
		}
		return v;
	}
};

static bool digits(const std::string &s, size_t from = 0) {
	if (from >= s.size()) return false;
	for (size_t i = from; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false;
	return true;
}
static bool integer_text(const std::string &s, MV &out) {
	bool neg = !s.empty() && s[0] == '-';
	if (!digits(s, neg ? 1 : 0)) return false;
	unsigned __int128 v = 0;
	for (size_t i = neg ? 1 : 0; i < s.size(); ++i) { v = v * 10 + (s[i] - '0'); if (v > ((unsigned __int128)1 << 70)) return false; }
	if (neg) { if (v > (unsigned __int128)1 << 63) return false; out = MV::Int((int64_t)(0 - (uint64_t)v)); return true; }
	if (v > (unsigned __int128)UINT64_MAX) return false;
	out = v <= (unsigned __int128)INT64_MAX ? MV::Int((int64_t)v) : MV::Uint((uint64_t)v);
	return true;
}
static bool float_text(const std::string &s) {
	size_t i = !s.empty() && s[0] == '-';
	size_t n = i;
	while (n < s.size() && isdigit((unsigned char)s[n])) ++n;
	if (n == i) return false;
	if (n < s.size() && s[n] == '.') { size_t m = ++n; while (n < s.size() && isdigit((unsigned char)s[n])) ++n; if (n == m) return false; }
	if (n < s.size() && (s[n] == 'e' || s[n] == 'E')) { ++n; if (n < s.size() && (s[n] == '-' || s[n] == '+')) ++n; size_t m = n; while (n < s.size() && isdigit((unsigned char)s[n])) ++n; if (n == m) return false; }
	return n == s.size();
}

static long double num(const MV &v) { return v.k == K_INT ? (long double)v.i : v.k == K_UINT ? (long double)v.u : (long double)v.f; }
static std::string where(const MV &a, const MV &b, const std::string &path = "$") {
	if (a.isnum() && b.isnum()) return num(a) == num(b) ? "" : cat(path, ": ", show(a), " is not ", show(b));
	if (a.k != b.k) return cat(path, ": ", show(a), " is not ", show(b));
	if (a.k == K_LIST) {
		if (a.l.size() != b.l.size()) return cat(path, ": ", a.l.size(), " elements, not ", b.l.size());
		for (size_t i = 0; i < a.l.size(); ++i) { std::string d = where(a.l[i], b.l[i], cat(path, "[", i, "]")); if (!d.empty()) return d; }
		return "";
	}
	if (a.k == K_MAP) {
		for (std::map<std::string, MV>::const_iterator i = a.m.begin(); i != a.m.end(); ++i) {
			if (!b.m.count(i->first)) return cat(path, ": unexpected key ", i->first);
			std::string d = where(i->second, b.m.find(i->first)->second, path + "/" + i->first);
			if (!d.empty()) return d;
		}
		for (std::map<std::string, MV>::const_iterator i = b.m.begin(); i != b.m.end(); ++i) if (!a.m.count(i->first)) return cat(path, ": key ", i->first, " is missing");
		return "";
	}
	return diff(a, b, EqOpt(), path);
}

static size_t characters(const std::string &s) { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) n += (s[i] & 0xC0) != 0x80; return n; }

// Whether an element satisfies what was declared for it.
static bool satisfies(const Opt &o, const MV &v) {
	switch (o.real()) {
	case T_INT: if (v.k != K_INT && v.k != K_UINT) return false; break;
	case T_UINT: if (v.k != K_INT && v.k != K_UINT) return false; if (num(v) < 0) return false; break;
	case T_FLOAT: if (!v.isnum()) return false; break;
	case T_STRING: if (v.k != K_STR) return false; break;
	case T_BOOL: if (v.k != K_BOOL) return false; break;
	default: break;
	}
	if (v.isnum()) {
		if (o.has_min && num(v) < o.min) return false;
		if (o.has_max && num(v) > o.max) return false;
	}
	if (v.k == K_STR) {
		if (o.minlen >= 0 && characters(v.s) < (size_t)o.minlen) return false;
		if (o.maxlen >= 0 && characters(v.s) > (size_t)o.maxlen) return false;
		if (o.pattern >= 0 && !PATTERNS[o.pattern].match(v.s)) return false;
	}
	if (!o.choices.empty()) {
		for (size_t i = 0; i < o.choices.size(); ++i) if (where(v, o.choices[i]).empty()) return true;
		return false;
	}
	return true;
}
// The value of an argument's text.
static bool convert(const Opt &o, const std::string &s, MV &v) {
	switch (o.real()) {
	case T_INT: return integer_text(s, v);
	case T_UINT: return digits(s) && integer_text(s, v);
	case T_FLOAT: if (!float_text(s)) return false; v = MV::Float(strtod(s.c_str(), 0)); return true;
	case T_STRING: v = MV::Str(s); return true;
	case T_BOOL: {
		std::string l;
		for (size_t i = 0; i < s.size(); ++i) l += tolower(s[i]);
		v = MV::Bool(!(l == "no" || l == "n" || l == "false" || l == "f" || l == "0"));
		return true;
	}
	default:
		if (integer_text(s, v)) return true;
		if (float_text(s)) { v = MV::Float(strtod(s.c_str(), 0)); return true; }
		if (s == "true" || s == "True" || s == "TRUE") { v = MV::Bool(true); return true; }
		if (s == "false" || s == "False" || s == "FALSE") { v = MV::Bool(false); return true; }
		if (s.size() > 2 && s.size() < 17 && s.compare(0, 2, "0x") == 0 && s.find_first_not_of("0123456789abcdefABCDEF", 2) == std::string::npos) { v = MV::Int(strtoll(s.c_str(), 0, 16)); return true; }
		v = MV::Str(s);
		return true;
	}
}

// ---------------------------------------------------------------- generation

static const char *WORDS[] = { "abc", "z", "hello", "Zed", "on", "off", "beef", "x y", "--weird", "-q", "a=b", "a/b", "\xc3\xa9t\xc3\xa9", "\xe6\xbc\xa2\xe5\xad\x97", "long-word-of-text", "b" };
static const char *INTS[] = { "0", "1", "-1", "7", "42", "-300", "007", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615" };
static const char *BADINTS[] = { "", "abc", "1.5", "0x1f", "12x", "1e3", "18446744073709551616", "-9223372036854775809", "99999999999999999999999999", "-99999999999999999999999999", "-18446744073709551615", " -18446744073709551615", "\t-9223372036854775809", "5-", "true", "1 2" };
static const char *FLOATS[] = { "0", "1", "-1", "2.5", "-0.25", "1e3", "12.75E-2", "1000000", "0.1", "3" };
static const char *BADFLOATS[] = { "", "abc", "1.5x", "1,5", "1.2.3", "2 3", "e5", "5e" };
static const char *BOOLS[] = { "yes", "no", "y", "n", "true", "false", "t", "f", "1", "0", "Yes", "NO", "False" };
static const char *GUESSES[] = { "0", "5", "-17", "2.5", "-0.25", "true", "false", "word", "two words", "x1", "9223372036854775808", "a:b" };

static std::string guess_word(Rng &r) { return GUESSES[r.below(sizeof GUESSES / sizeof *GUESSES)]; }

// Text for an argument of this option; good when it can be found.
static std::string text_for(Rng &r, const Opt &o, bool good) {
	for (int tries = 0; tries < 40; ++tries) {
		std::string s;
		switch (o.real()) {
		case T_INT: case T_UINT:
			if (good || r.coin()) { s = r.coin() ? std::string(r.pick(INTS)) : cat(r.range(-12, 30)); } else s = r.pick(BADINTS);
			break;
		case T_FLOAT:
			if (good || r.coin()) { s = r.coin() ? std::string(r.pick(FLOATS)) : cat(r.range(-12, 30)); } else s = r.pick(BADFLOATS);
			break;
		case T_BOOL: s = r.pick(BOOLS); break;
		case T_STRING:
			if (o.pattern >= 0 && r.coin()) s = good ? PATTERNS[o.pattern].good[r.below(3)] : PATTERNS[o.pattern].bad[r.below(3)];
			else s = r.chance(1, 12) ? "" : WORDS[r.below(sizeof WORDS / sizeof *WORDS)];
			break;
		default: s = guess_word(r); break;
		}
		if (!o.choices.empty() && r.chance(2, 3)) {
			const MV &c = o.choices[r.below(o.choices.size())];
			s = c.k == K_STR ? c.s : c.k == K_BOOL ? (c.b ? "true" : "false") : c.k == K_INT ? cat(c.i) : c.k == K_UINT ? cat(c.u) : cat(c.f);
		}
		MV v;
		bool ok = convert(o, s, v) && satisfies(o, v);
		if (ok == good) return s;
	}
	return "5";
}
// A value of the declared kind for defaults and configuration files.
static MV value_for(Rng &r, const Opt &o) {
	if (!o.choices.empty()) return o.choices[r.below(o.choices.size())];
	MV v;
	for (int t = 0; t < 30; ++t) {
		std::string s = text_for(r, o, true);
		if (convert(o, s, v) && satisfies(o, v)) return v;
	}
	return v;
}

static std::string long_name(Rng &r, std::set<std::string> &used) {
	static const char *N[] = { "alpha", "alpha-two", "beta", "beta-max", "verbose", "version", "name", "number", "no-color", "x-ray", "out", "output", "o", "help-me", "confine", "prime", "Alpha", "under_score", "a", "al", "print" };
	for (int t = 0; t < 60; ++t) { std::string s = r.pick(N); if (used.insert(s).second) return s; }
	std::string s = cat("opt", used.size());
	used.insert(s);
	return s;
}

static Decl gen_decl(Rng &r) {
	Decl d;
	d.addhelp = !r.chance(1, 6);
	d.config_defaults = r.chance(1, 3);
	std::set<std::string> longs;
	std::set<int> shorts;
	longs.insert("help"); longs.insert("adv-help"); longs.insert("config"); longs.insert("print-config");
	// Places for the results.
	std::vector<std::vector<Step> > places;
	{
		static const char *P[] = { "a", "b", "key", "x y", "a.b", "\xc3\xa9", "default", "type", "Zed", "0", "n1", "n2", "n3", "n4" };
		Strs names(P, P + sizeof P / sizeof *P);
		for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]);
		for (size_t i = 0; i < names.size(); ++i) places.push_back(std::vector<Step>(1, Step(names[i])));
		if (r.coin()) {
			static const char *C[] = { "x", "y", "z" };
			for (int i = 0; i < 3; ++i) { std::vector<Step> p; p.push_back(Step("grp")); p.push_back(Step(std::string(C[i]))); places.push_back(p); }
			for (int i = 0; i < 2; ++i) { std::vector<Step> p; p.push_back(Step("deep")); p.push_back(Step("one")); p.push_back(Step(std::string(C[i]))); places.push_back(p); }
		}
		if (r.chance(1, 3)) {
			bool sub = r.coin();
			for (int i = 0; i < 2; ++i) { std::vector<Step> p; p.push_back(Step("list")); p.push_back(Step(i)); if (sub) p.push_back(Step("foo")); places.push_back(p); }
		}
		for (size_t i = places.size(); i > 1; --i) std::swap(places[i - 1], places[r.below(i)]);
	}
	int nopt = r.range(1, 7), narg = r.chance(1, 3) ? 0 : r.range(1, 3);
	bool optional_seen = false;
	for (int i = 0; i < nopt + narg; ++i) {
		Opt o;
		o.positional = i >= nopt;
		o.path = places[i];
		o.help = cat("HELP-TEXT-", i, "-END");
		if (!o.positional) {
			int k = r.below(10);
			if (k < 7) o.longopt = long_name(r, longs);
			if (k >= 5) {
				for (int t = 0; t < 20 && !o.shortopt; ++t) {
					int c = "abcdefghnopqrstvxyzABC12"[r.below(24)];
					if (shorts.insert(c).second) o.shortopt = c;
				}
				if (!o.shortopt && o.longopt.empty()) o.longopt = long_name(r, longs);
			}
			static const Action ACTIONS[] = { A_STORE, A_STORE, A_STORE, A_STORE, A_STORE, A_APPEND, A_APPEND, A_COUNT, A_CONST, A_TRUE, A_FALSE, A_TRUE };
			o.action = r.pick(ACTIONS);
			if (o.action == A_TRUE && r.coin()) { o.flag = true; o.type = T_BOOL; o.has_default = true; o.dvalue = MV::Bool(false); }
			if (r.chance(1, 14)) { o.action = A_CONFIG; o.format = r.below(4); o.flag = false; o.has_default = false; o.type = T_GUESS; }
		} else {
			bool last = i == nopt + narg - 1;
			o.minargs = o.maxargs = 1;
			int k = r.below(6);
			if (k < 3) { if (k == 0 || optional_seen) { o.minargs = 0; optional_seen = true; } }
			else if (k < 4 && !optional_seen) { o.action = A_APPEND; o.minargs = o.maxargs = r.range(1, 3); }
			else if (last) {
				o.action = A_APPEND;
				o.minargs = r.range(0, 2);
				o.maxargs = r.chance(1, 2) ? 0 : o.minargs + r.range(1, 2);
				if (optional_seen) o.minargs = 0;
			} else if (optional_seen) o.minargs = 0;
		}
		if (o.action == A_CONFIG) { d.opts.push_back(o); continue; }
		if (o.hasarg()) {
			static const Type TYPES[] = { T_GUESS, T_GUESS, T_INT, T_INT, T_UINT, T_FLOAT, T_STRING, T_STRING, T_BOOL };
			o.type = r.pick(TYPES);
			switch (o.type) {
			case T_GUESS:
				if (r.chance(1, 5)) { o.has_min = true; o.min = r.range(-10, 5); }
				else if (r.chance(1, 6)) { o.maxlen = r.range(1, 6); }
				break;
			case T_INT: case T_UINT: case T_FLOAT:
				if (r.chance(1, 3)) { o.has_min = true; o.min = o.type == T_UINT ? r.range(0, 5) : r.range(-20, 5); if (o.type == T_FLOAT && r.coin()) o.min += 0.5; }
				if (r.chance(1, 3)) { o.has_max = true; o.max = r.range(6, 50); if (o.type == T_FLOAT && r.coin()) o.max += 0.25; }
				break;
			case T_STRING:
				if (r.chance(1, 4)) o.pattern = r.below(4);
				else {
					if (r.chance(1, 4)) o.minlen = r.range(0, 3);
					if (r.chance(1, 4)) o.maxlen = r.range(3, 6);
				}
				break;
			default: break;
			}
			if (r.chance(1, 5) && o.type != T_BOOL && o.pattern < 0 && o.minlen < 0 && o.maxlen < 0) {
				int n = r.chance(1, 6) ? r.range(5, 30) : r.range(1, 4);
				for (int c = 0; c < n; ++c) {
					MV v;
					Opt plain = o;
					plain.choices.clear();
					std::string s = text_for(r, plain, true);
					if (!convert(plain, s, v) || !satisfies(plain, v)) continue;
					bool dup = false;
					for (size_t q = 0; q < o.choices.size(); ++q) if (where(v, o.choices[q]).empty()) dup = true;
					if (!dup) o.choices.push_back(v);
				}
			}
		}
		if (o.action == A_APPEND && !o.positional) {
			if (r.chance(1, 3)) o.minargs = r.range(0, 3);
			if (r.chance(1, 3)) o.maxargs = std::max(o.minargs, 0) + r.range(0, 3);
		}
		if (o.action == A_CONST) { o.has_const = true; Opt g; o.cvalue = value_for(r, g); if (r.chance(1, 4)) { MV l = MV::List(); l.l.push_back(o.cvalue); o.cvalue = l; } }
		if (!o.flag && r.chance(2, 5)) {
			switch (o.action) {
			case A_STORE:
				o.has_default = true; o.dvalue = value_for(r, o);
				if (o.real() == T_GUESS && o.choices.empty() && r.chance(1, 4)) { MV l = r.coin() ? MV::List() : MV::Map(); if (l.k == K_LIST) l.l.push_back(o.dvalue); else l.m["k"] = o.dvalue; o.dvalue = l; }
				break;
			case A_APPEND: o.has_default = true; o.dvalue = value_for(r, o); break;
			case A_CONST: { Opt g; o.has_default = true; o.dvalue = value_for(r, g); break; }
			case A_TRUE: case A_FALSE: o.has_default = true; o.dvalue = MV::Bool(r.coin()); break;
			default: break;
			}
		}
		if (!o.positional && r.chance(1, 6) && !o.has_default) o.required = true;
		if (r.chance(1, 5)) {
			o.env = cat("VH_ENV_", i);
			if (r.coin()) { o.env_set = true; o.env_value = o.hasarg() ? text_for(r, o, !(bad_mode && r.chance(1, 6))) : r.coin() ? "1" : "yes"; }
		}
		if (r.chance(1, 8)) o.advanced = true;
		d.opts.push_back(o);
	}
	int ngroups = r.below(3);
	for (int g = 0; g < ngroups; ++g) {
		Group gr;
		gr.name = cat("group", g);
		if (r.coin()) gr.title = cat("Group title ", g);
		if (r.chance(1, 4)) gr.description = cat("Group description ", g);
		gr.exclusive = r.chance(3, 4);
		gr.required = r.chance(1, 4);
		gr.advanced = r.chance(1, 6);
		for (int n = r.range(2, 3); n > 0; --n) {
			size_t m = r.below(d.opts.size());
			if (d.opts[m].group >= 0 || d.opts[m].action == A_CONFIG) continue;
			if (d.opts[m].need() || (d.opts[m].positional && d.opts[m].minargs > 0)) { if (gr.exclusive && !r.chance(1, 8)) continue; }
			d.opts[m].group = g;
			gr.members.push_back(m);
		}
		if (gr.members.empty()) gr.exclusive = false;
		d.groups.push_back(gr);
	}
	return d;
}

// ---------------------------------------------------------------- the real parser

static Variant num_variant(double d) { return d == floor(d) ? Variant((int)d) : Variant(d); }

static ArgParseAction action_of(const Opt &o) {
	switch (o.action) {
	case A_CONST: return ARGACTION_STORE_CONST;
	case A_TRUE: return ARGACTION_STORE_TRUE;
	case A_FALSE: return ARGACTION_STORE_FALSE;
	case A_APPEND: return ARGACTION_APPEND;
	case A_COUNT: return ARGACTION_COUNT;
	case A_CONFIG: return o.format == 0 ? ARGACTION_CONFIG : o.format == 1 ? ARGACTION_CONFIG_JSON : o.format == 2 ? ARGACTION_CONFIG_YAML : ARGACTION_CONFIG_PLIST;
	default: return ARGACTION_STORE;
	}
}
static ArgParseType type_of(const Opt &o) {
	switch (o.type) {
	case T_INT: return ARGTYPE_INT;
	case T_UINT: return ARGTYPE_UINT;
	case T_FLOAT: return ARGTYPE_FLOAT;
	case T_STRING: return ARGTYPE_STRING;
	case T_BOOL: return ARGTYPE_BOOL;
	default: return ARGTYPE_GUESS;
	}
}

struct Skip {};
static void return_early() { throw Skip(); }
static void declare(ArgParse &p, const Decl &d, Rng r, bool groups_late) {
	p.SetDescription("about this program");
	if (r.coin()) p.SetEpilog("and that is all");
	unsigned places = 0;
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		ArgParseOption a = o.positional ? p.AddArgument(o.pathtext(), o.help) : o.flag ? p.AddFlag(o.pathtext(), o.shortopt, o.longopt, o.help) : p.AddOption(o.pathtext(), o.shortopt, o.longopt, o.help);
		std::vector<int> order;
		for (int k = 0; k < 16; ++k) order.push_back(k);
		for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
		if (o.positional) ++places;
		for (size_t k = 0; k < order.size(); ++k) {
			// found again by its key or its place
			if (r.chance(1, 8)) { if (o.positional && r.coin()) a = p[places - 1]; else a = p[o.pathtext()]; count("found-again"); }
			switch (order[k]) {
			case 0: if (!o.flag && o.type != T_GUESS) {
				if (o.type == T_UINT || r.coin()) a.Type(type_of(o));
				else if (r.coin()) a.Type(o.type == T_INT ? "integer" : o.type == T_FLOAT ? "number" : o.type == T_STRING ? "string" : "boolean");
				else a.Type(o.type == T_INT ? Variant::IntegerType : o.type == T_FLOAT ? Variant::FloatType : o.type == T_STRING ? Variant::StringType : Variant::BoolType);
			} break;
			case 1: if (!o.flag && (o.action != A_STORE || r.coin())) {
				static const char *AN[] = { "store", "store_const", "store_true", "store_false", "append", "count" };
				static const char *CN[] = { "config", "config_json", "config_yaml", "config_plist" };
				if (r.coin()) a.Action(action_of(o)); else a.Action(std::string(o.action == A_CONFIG ? CN[o.format] : AN[o.action]));
			} break;
			case 2: if (o.has_const) a.Const(to_variant(o.cvalue)); break;
			case 3: if (!o.flag && o.has_default) a.Default(to_variant(o.dvalue)); break;
			case 4: if (!o.env.empty()) a.Env(o.env.c_str()); break;
			case 5: if (o.has_min) a.Minimum(num_variant(o.min)); break;
			case 6: if (o.has_max) a.Maximum(num_variant(o.max)); break;
			case 7: if (!o.choices.empty()) {
				if (r.coin()) { for (size_t c = 0; c < o.choices.size(); ++c) a.AddChoice(to_variant(o.choices[c])); }
				else { std::vector<Variant> v; for (size_t c = 0; c < o.choices.size(); ++c) v.push_back(to_variant(o.choices[c])); a.SetChoices(v); }
			} break;
			case 8: if (o.required) a.Required(); else if (!o.positional && o.minargs <= 0 && r.chance(1, 6)) { if (r.coin()) a.Required(); a.Required(false); } break;
			case 9: if (o.pattern >= 0) a.Pattern(PATTERNS[o.pattern].regex); break;
			case 10: if (o.minlen >= 0) a.MinLength(o.minlen); break;
			case 11: if (o.maxlen >= 0) a.MaxLength(o.maxlen); break;
			case 12:
				if (o.positional && o.minargs == 1 && o.maxargs == 1) break;
				if (o.minargs >= 0 && o.minargs == o.maxargs && r.coin()) a.NumArgs(o.minargs);
				else { if (o.minargs >= 0) a.MinArgs(o.minargs); if (o.maxargs >= 0) a.MaxArgs(o.maxargs); }
				break;
			case 13: if (o.advanced) a.Advanced(); break;
			case 14: if (o.group >= 0 && !groups_late) a.Group(d.groups[o.group].name); break;
			case 15: if (r.chance(1, 5)) a.Title(cat("TITLE", i)); break;
			}
		}
	}
	// what is taken is refused, and nothing comes of the attempt
	if (!d.opts.empty() && r.chance(1, 3)) {
		const Opt &o = r.pick(d.opts);
		int kind = r.below(5);
		bool raised = false;
		try {
			switch (kind) {
			case 0: p.AddOption(o.pathtext(), 0, "not-taken-yet"); break;
			case 1: p.AddArgument(o.pathtext()); break;
			case 2: if (o.longopt.empty()) return_early(); p.AddOption("not/taken/yet", 0, o.longopt); break;
			case 3: if (!o.shortopt) return_early(); p.AddFlag("not/taken/yet", o.shortopt, "not-taken-yet"); break;
			default: p.At("not/taken/yet").Default(1);
			}
		} catch (const Skip &) { raised = true; kind = -1; }
		catch (const std::exception &) { raised = true; }
		VH_CHECK(raised, "taken-twice", "kind ", kind, " of ", o.pathtext(), " --", o.longopt);
		if (kind >= 0) count("refused-declaration");
	}
	for (size_t g = 0; g < d.groups.size(); ++g) {
		const Group &gr = d.groups[g];
		OptionGroup x = gr.title.empty() && gr.description.empty() && r.coin() ? p.GetGroup(gr.name) : p.AddGroup(gr.name, gr.title, gr.description);
		if (groups_late) for (size_t m = 0; m < gr.members.size(); ++m) {
			std::string at = d.opts[gr.members[m]].pathtext();
			if (r.coin()) { x.Add(at); continue; }
			Path path;
			ParsePath(path, at);
			x.Add(path);
		}
		if (gr.exclusive) x.MutuallyExclusive();
		if (gr.required) x.Required();
		if (gr.advanced) x.Advanced();
	}
	if (d.config_defaults) p.AddConfigDefaults();
}

// The declaration as a description document, written from the schema of descriptions.
static Variant describe_decl(const Decl &d) {
	Variant desc = Variant::MapType;
	desc["title"] = "prog"; desc["description"] = ""; desc["epilog"] = "";
	static const char *TN[] = { "null", "integer", "integer", "number", "string", "boolean" };
	static const char *CONFIGS[] = { "config", "config_json", "config_yaml", "config_plist" };
	static const char *AN[] = { "store", "store_const", "store_true", "store_false", "append", "count" };
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		Variant v = Variant::MapType;
		v["title"] = cat("T", i);
		v["description"] = o.help;
		v["action"] = o.action == A_CONFIG ? CONFIGS[o.format] : AN[o.action];
		v["type"] = TN[o.real()];
		if (!o.longopt.empty()) v["longOption"] = o.longopt;
		if (o.shortopt) v["shortOption"] = std::string(1, (char)o.shortopt);
		if (o.has_default) v["default"] = to_variant(o.dvalue);
		if (o.has_const) v["const"] = to_variant(o.cvalue);
		if (!o.env.empty()) v["env"] = o.env;
		if (o.has_min) v["minimum"] = num_variant(o.min); else if (o.type == T_UINT) v["minimum"] = 0;
		if (o.has_max) v["maximum"] = num_variant(o.max);
		if (o.pattern >= 0) v["pattern"] = PATTERNS[o.pattern].regex;
		if (o.minlen >= 0) v["minLength"] = o.minlen;
		if (o.maxlen >= 0) v["maxLength"] = o.maxlen;
		if (o.minargs >= 0) v["minArgs"] = o.minargs;
		if (o.maxargs >= 0) v["maxArgs"] = o.maxargs;
		if (o.need()) v["required"] = true;
		if (o.advanced) v["advanced"] = true;
		for (size_t c = 0; c < o.choices.size(); ++c) v["enum"].Append(to_variant(o.choices[c]));
		if (o.positional) { v["keypath"] = o.pathtext(); desc["arguments"].Append(v); }
		else desc["options"].Set(o.pathtext(), v);
	}
	for (size_t g = 0; g < d.groups.size(); ++g) {
		const Group &gr = d.groups[g];
		Variant v = Variant::MapType;
		if (!gr.title.empty()) v["title"] = gr.title;
		if (!gr.description.empty()) v["description"] = gr.description;
		v["mutually exclusive"] = gr.exclusive;
		v["required"] = gr.required;
		v["advanced"] = gr.advanced;
		v["members"] = Variant::ListType;
		for (size_t m = 0; m < gr.members.size(); ++m) v["members"].Append(d.opts[gr.members[m]].pathtext());
		desc["groups"].Set(gr.name, v);
	}
	return desc;
}

// ---------------------------------------------------------------- the model

enum Verdict { RESULT, REFUSED, HELP, ADVHELP, PRINT, NOTHING };
struct Outcome { Outcome() : verdict(RESULT) {} Verdict verdict; std::vector<MV> results; std::string why; };

struct Line { Strs argv; std::map<std::string, MV> files; std::set<std::string> broken; bool files_only; };

struct State {
	State(const Decl &d) : given(d.opts.size(), false), value(d.opts.size()), help(false), adv(false), print(false), refused(false), late(false) {}
	std::vector<bool> given;
	std::vector<MV> value;
	bool help, adv, print, refused, late;
	std::string why;
	void refuse(const std::string &w) { if (!refused) why = w; refused = true; late = help || adv || print; }
};

static void feed(const Decl &d, State &st, size_t n, const MV &v, bool from_file) {
	const Opt &o = d.opts[n];
	switch (o.action) {
	case A_STORE:
		if (!satisfies(o, v)) return st.refuse(cat("value for ", o.pathtext()));
		st.value[n] = v; st.given[n] = true;
		break;
	case A_APPEND:
		if (st.value[n].k != K_LIST) st.value[n] = MV::List();
		if (from_file && v.k == K_LIST) {
			for (size_t i = 0; i < v.l.size(); ++i) { if (!satisfies(o, v.l[i])) return st.refuse(cat("element for ", o.pathtext())); st.value[n].l.push_back(v.l[i]); st.given[n] = true; }
		} else {
			if (!satisfies(o, v)) return st.refuse(cat("element for ", o.pathtext()));
			st.value[n].l.push_back(v); st.given[n] = true;
		}
		break;
	case A_CONST:
		st.value[n] = from_file && o.has_default && where(v, o.dvalue).empty() ? o.dvalue : o.cvalue; st.given[n] = true;
		break;
	case A_TRUE: case A_FALSE:
		st.value[n] = from_file && v.k == K_BOOL ? v : MV::Bool(o.action == A_TRUE); st.given[n] = true;
		break;
	case A_COUNT: {
		if (!st.given[n]) st.value[n] = MV::Int(0);
		st.value[n].i += from_file ? (int64_t)num(v) : 1; st.given[n] = true;
		break;
	}
	default: break;
	}
}

static const MV *at(const MV &doc, const std::vector<Step> &path) {
	const MV *p = &doc;
	for (size_t i = 0; i < path.size(); ++i) {
		if (path[i].index >= 0) { if (p->k != K_LIST || (size_t)path[i].index >= p->l.size()) return 0; p = &p->l[path[i].index]; }
		else { if (p->k != K_MAP || !p->m.count(path[i].key)) return 0; p = &p->m.find(path[i].key)->second; }
	}
	return p;
}
static void put(MV &doc, const std::vector<Step> &path, const MV &v) {
	MV *p = &doc;
	for (size_t i = 0; i < path.size(); ++i) {
		if (path[i].index >= 0) { if (p->k != K_LIST) *p = MV::List(); while (p->l.size() <= (size_t)path[i].index) p->l.push_back(MV()); p = &p->l[path[i].index]; }
		else { if (p->k != K_MAP) *p = MV::Map(); p = &p->m[path[i].key]; }
	}
	*p = v;
}

static void option(const Decl &d, const Line &line, State &st, const std::vector<Opt> &all, size_t n, const std::string *arg) {
	const Opt &o = all[n];
	switch (o.action) {
	case A_HELP: st.help = true; return;
	case A_ADVHELP: st.adv = true; return;
	case A_PRINT: st.print = true; return;
	case A_CONFIG: {
		std::map<std::string, MV>::const_iterator f = line.files.find(*arg);
		if (f == line.files.end() || line.broken.count(*arg)) return st.refuse("configuration file");
		for (size_t i = 0; i < d.opts.size() && !st.refused; ++i) {
			const MV *v = at(f->second, d.opts[i].path);
			if (v && v->k != K_NULL && v->k != K_MAP) feed(d, st, i, *v, true);
		}
		return;
	}
	default: {
		MV v;
		if (arg && !convert(o, *arg, v)) return st.refuse(cat("type of ", o.pathtext()));
		feed(d, st, n, v, false);
	}
	}
}

static void finish(const Decl &d, const State &st, std::vector<MV> &out, bool &refused, std::string &why) {
	// Which member of an exclusive group without a given member takes its default is open.
	std::vector<std::vector<size_t> > holders;
	std::vector<bool> takes(d.opts.size(), false);
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		bool holder = !st.given[i] && (o.has_default || (o.env_set && o.hasresult()) || o.action == A_COUNT);
		if (holder && !(o.group >= 0 && d.groups[o.group].exclusive)) takes[i] = true;
	}
	std::vector<std::vector<bool> > ways(1, takes);
	for (size_t g = 0; g < d.groups.size(); ++g) {
		if (!d.groups[g].exclusive) continue;
		std::vector<size_t> hold;
		size_t given = 0;
		for (size_t m = 0; m < d.groups[g].members.size(); ++m) {
			size_t i = d.groups[g].members[m];
			const Opt &o = d.opts[i];
			if (st.given[i]) ++given;
			else if (o.has_default || o.env_set || o.action == A_COUNT) hold.push_back(i);
		}
		if (given > 1) { refused = true; why = "exclusive options"; return; }
		if (given) continue;
		if (hold.empty()) { if (d.groups[g].required) { refused = true; why = "required group"; return; } continue; }
		std::vector<std::vector<bool> > more;
		for (size_t w = 0; w < ways.size(); ++w) for (size_t h = 0; h < hold.size(); ++h) { more.push_back(ways[w]); more.back()[hold[h]] = true; }
		ways.swap(more);
	}
	bool any = false;
	for (size_t w = 0; w < ways.size(); ++w) {
		MV doc = MV::Map();
		bool bad = false;
		for (size_t i = 0; i < d.opts.size() && !bad; ++i) {
			const Opt &o = d.opts[i];
			if (!o.hasresult()) continue;
			MV v = st.value[i];
			bool have = st.given[i];
			if (!have && ways[w][i]) {
				if (o.env_set) {
					State one(d);
					MV a;
					if (o.hasarg() && !convert(o, o.env_value, a)) bad = true;
					else { feed(d, one, i, a, false); if (one.refused) bad = true; v = one.value[i]; }
					if (bad) { why = cat("environment of ", o.pathtext()); break; }
				} else if (o.action == A_COUNT) v = MV::Int(0);
				else if (o.action == A_APPEND) { v = MV::List(); v.l.push_back(o.dvalue); }
				else v = o.dvalue;
				have = true;
			}
			if (!have) {
				if (o.need() || (o.positional && o.minargs > 0)) { bad = true; why = cat("missing ", o.pathtext()); }
				continue;
			}
			if (o.action == A_APPEND) {
				if (o.maxargs > 0 && v.l.size() > (size_t)o.maxargs) { bad = true; why = cat("too many ", o.pathtext()); }
				if (o.minargs > 0 && v.l.size() < (size_t)o.minargs) { bad = true; why = cat("too few ", o.pathtext()); }
			}
			put(doc, o.path, v);
		}
		if (!bad) { out.push_back(doc); any = true; }
	}
	if (!any) refused = true;
	else if (out.size() < ways.size()) out.clear(), refused = false;   // depends on the choice: not judged
}

static Outcome predict(const Decl &d, const Line &line) {
	Outcome out;
	State st(d);
	std::vector<Opt> all = d.all();
	Strs rest;
	bool unparsable = false;
	for (size_t i = 1; i < line.argv.size() && !unparsable; ++i) {
		const std::string &t = line.argv[i];
		if (t == "--") { rest.insert(rest.end(), line.argv.begin() + i + 1, line.argv.end()); break; }
		if (t.size() > 2 && t[0] == '-' && t[1] == '-') {
			size_t eq = t.find('=');
			std::string name = t.substr(2, eq == std::string::npos ? std::string::npos : eq - 2);
			std::vector<size_t> cand;
			int exact = -1;
			for (size_t n = 0; n < all.size(); ++n) {
				if (all[n].longopt == name) exact = n;
				else if (!all[n].longopt.empty() && all[n].longopt.compare(0, name.size(), name) == 0) cand.push_back(n);
			}
			if (exact < 0) { if (cand.size() != 1) { unparsable = true; out.why = cat("unknown or ambiguous ", t); break; } exact = cand[0]; }
			if (all[exact].hasarg()) {
				std::string a;
				if (eq != std::string::npos) a = t.substr(eq + 1);
				else if (i + 1 < line.argv.size()) a = line.argv[++i];
				else { unparsable = true; out.why = "no argument"; break; }
				if (!st.refused) option(d, line, st, all, exact, &a);
			} else {
				if (eq != std::string::npos) { unparsable = true; out.why = "superfluous argument"; break; }
				if (!st.refused) option(d, line, st, all, exact, 0);
			}
			continue;
		}
		if (t.size() > 1 && t[0] == '-') {
			for (size_t c = 1; c < t.size(); ++c) {
				int n = -1;
				for (size_t k = 0; k < all.size(); ++k) if (all[k].shortopt == (unsigned char)t[c]) n = k;
				if (n < 0) { unparsable = true; out.why = cat("unknown ", t); break; }
				if (all[n].hasarg()) {
					std::string a;
					if (c + 1 < t.size()) a = t.substr(c + 1);
					else if (i + 1 < line.argv.size()) a = line.argv[++i];
					else { unparsable = true; out.why = "no argument"; break; }
					if (!st.refused) option(d, line, st, all, n, &a);
					break;
				}
				if (!st.refused) option(d, line, st, all, n, 0);
			}
			continue;
		}
		rest.push_back(t);
	}
	bool info = st.help || st.adv || st.print;
	if (unparsable || st.refused) { out.verdict = info ? NOTHING : REFUSED; if (!unparsable) out.why = st.why; return out; }
	size_t next = 0;
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		if (!o.positional) continue;
		for (int n = 0; next < rest.size() && (o.maxargs == 0 || n < o.maxargs); ++n, ++next) {
			MV v;
			if (!st.refused) { if (!convert(o, rest[next], v)) st.refuse(cat("type of ", o.pathtext())); else feed(d, st, i, v, false); }
		}
	}
	if (next < rest.size()) st.refuse("extra argument");
	bool refused = st.refused;
	out.why = st.why;
	if (!refused) finish(d, st, out.results, refused, out.why);
	if (refused) out.verdict = info ? NOTHING : REFUSED;
	else if (out.results.empty()) out.verdict = NOTHING;
	else out.verdict = st.adv ? ADVHELP : st.help ? HELP : st.print ? PRINT : RESULT;
	if (refused && info) out.verdict = NOTHING;
	if (!refused && out.results.empty()) out.why = "open";
	return out;
}

// ---------------------------------------------------------------- command lines

static std::string quote(const std::string &t) {
	std::string s = "\"";
	for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '"' || t[i] == '\\') s += '\\'; s += t[i]; }
	return s + "\"";
}
static std::string json(const MV &v) {
	switch (v.k) {
	case K_NULL: return "null";
	case K_BOOL: return v.b ? "true" : "false";
	case K_INT: return cat(v.i);
	case K_UINT: return cat(v.u);
	case K_FLOAT: { char b[64]; snprintf(b, sizeof b, "%.17g", v.f); std::string s = b; if (s.find_first_of(".e") == std::string::npos) s += ".0"; return s; }
	case K_STR: return quote(v.s);
	case K_LIST: { std::string s = "["; for (size_t i = 0; i < v.l.size(); ++i) s += (i ? ", " : "") + json(v.l[i]); return s + "]"; }
	case K_MAP: { std::string s = "{"; for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) s += (i == v.m.begin() ? "" : ", ") + quote(i->first) + ": " + json(i->second); return s + "}"; }
	default: return "null";
	}
}
static std::string plist(const MV &v) {
	switch (v.k) {
	case K_BOOL: return v.b ? "<true/>" : "<false/>";
	case K_INT: return cat("<integer>", v.i, "</integer>");
	case K_UINT: return cat("<integer>", v.u, "</integer>");
	case K_FLOAT: { char b[64]; snprintf(b, sizeof b, "%.17g", v.f); return cat("<real>", b, "</real>"); }
	case K_STR: return cat("<string>", v.s, "</string>");
	case K_LIST: { std::string s = "<array>"; for (size_t i = 0; i < v.l.size(); ++i) s += plist(v.l[i]); return s + "</array>"; }
	case K_MAP: { std::string s = "<dict>"; for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) s += "<key>" + i->first + "</key>" + plist(i->second); return s + "</dict>"; }
	default: return "<null/>";
	}
}

static int file_number;
static std::string config_file(Rng &r, const Decl &d, const Opt &via, Line &line, bool good) {
	std::string name = cat(scratch(), "/c", file_number++);
	MV doc = MV::Map();
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		if (!r.chance(good ? 1 : 2, 3) || !o.hasresult() || o.action == A_CONST) continue;
		if (o.path.size() > 1 && o.path[1].index > 0 && !at(doc, std::vector<Step>(o.path.begin(), o.path.begin() + 1))) continue;
		MV v;
		switch (o.action) {
		case A_STORE: v = value_for(r, o); break;
		case A_APPEND: if (good ? r.coin() : r.chance(4, 5)) { v = MV::List(); for (int n = r.range(1, good ? 3 : 4); n > 0; --n) v.l.push_back(value_for(r, o)); } else v = value_for(r, o); break;
		case A_COUNT: v = MV::Int(r.range(1, 4)); break;
		default: v = MV::Bool(r.coin()); break;
		}
		if (!good && (o.action == A_STORE || o.action == A_APPEND) && r.coin()) {
			Opt any; Opt str; str.type = T_STRING;
			Opt like; like.type = o.real();
			MV x = r.coin() ? value_for(r, like) : r.coin() ? value_for(r, any) : value_for(r, str);
			if (v.k == K_LIST && r.chance(3, 4)) { v.l[r.below(v.l.size())] = x; count("config-list-element"); }
			else v = x;
			count("config-any-value");
		}
		if (v.k == K_STR && (v.s.find_first_of("<&") != std::string::npos)) continue;
		put(doc, o.path, v);
	}
	if (doc.m.empty()) doc.m["unused"] = MV::Bool(true);
	int format = via.format ? via.format : r.coin() ? 1 : 3;
	std::string text = format == 3 ? "<?xml version=\"1.0\"?><plist version=\"1.0\">" + plist(doc) + "</plist>" : json(doc);
	if (!good && r.chance(1, 4)) {
		if (r.coin()) { line.files.erase(name); line.broken.insert(name); unlink(name.c_str()); return name; }
		text = text.substr(0, text.size() - (format == 3 ? 12 : 1));
		line.broken.insert(name);
	}
	FILE *f = fopen(name.c_str(), "w");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) harness_error("cannot write a configuration file");
	if (format != 3) count("config-json"); else count("config-plist");
	line.files[name] = doc;
	return name;
}

// The ways to spell one use of an option.
static void spell(Rng &r, const std::vector<Opt> &all, size_t n, const std::string *arg, Strs &out) {
	const Opt &o = all[n];
	bool use_long = !o.longopt.empty() && (!o.shortopt || r.coin());
	if (use_long) {
		std::string name = o.longopt;
		if (r.chance(1, 4)) {
			for (size_t len = 1; len < name.size(); ++len) {
				std::string pre = name.substr(0, len);
				size_t hits = 0;
				for (size_t k = 0; k < all.size(); ++k) hits += !all[k].longopt.empty() && all[k].longopt.compare(0, len, pre) == 0;
				if (hits == 1 && r.coin()) { name = pre; count("abbreviated"); break; }
			}
		}
		if (!arg) out.push_back("--" + name);
		else if (r.coin()) { out.push_back("--" + name + "=" + *arg); count("long-equals"); }
		else { out.push_back("--" + name); out.push_back(*arg); }
	} else {
		std::string s = cat("-", (char)o.shortopt);
		if (!arg) {
			// Join the previous group of flags.
			if (!out.empty() && r.chance(1, 3) && out.back().size() > 1 && out.back()[0] == '-' && out.back()[1] != '-') {
				bool flags = true;
				for (size_t c = 1; c < out.back().size(); ++c) { bool f = false; for (size_t k = 0; k < all.size(); ++k) if (all[k].shortopt == (unsigned char)out.back()[c] && !all[k].hasarg()) f = true; flags = flags && f; }
				if (out.size() > 1 && flags) {
					// The previous word may be an option's argument that looks like flags.
					flags = false;
				}
				if (flags) { out.back() += (char)o.shortopt; count("cluster"); return; }
			}
			out.push_back(s);
		} else if (r.coin() && !arg->empty()) { out.push_back(s + *arg); count("short-joined"); }
		else { out.push_back(s); out.push_back(*arg); }
	}
}

static Line gen_line(Rng &r, const Decl &d, bool good) {
	Line line;
	std::vector<Opt> all = d.all();
	std::vector<Strs> units;
	std::vector<bool> groupdone(d.groups.size(), false);
	std::vector<size_t> order;
	for (size_t i = 0; i < all.size(); ++i) order.push_back(i);
	for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
	Strs rest;
	// only a configuration file may break a rule
	bool has_config = false;
	for (size_t i = 0; i < all.size(); ++i) has_config = has_config || all[i].action == A_CONFIG;
	bool files_only = !good && has_config && r.coin();
	bool file_good = good;
	if (files_only) { good = true; count("files-only"); }
	line.files_only = files_only;
	for (size_t q = 0; q < order.size(); ++q) {
		size_t i = order[q];
		const Opt &o = all[i];
		if (o.positional || o.action == A_HELP || o.action == A_ADVHELP || o.action == A_PRINT) continue;
		bool must = o.need();
		if (o.group >= 0 && d.groups[o.group].exclusive) {
			if (groupdone[o.group] && good && !must) continue;
			if (d.groups[o.group].required && good) must = true;
		}
		if (!must && !(files_only && o.action == A_CONFIG) && !r.chance(o.action == A_CONFIG ? 1 : 2, 4)) continue;
		int times = 1;
		if (o.action == A_APPEND) times = o.minargs > 0 ? std::max(o.minargs, 1) + r.below(o.maxargs > o.minargs || o.maxargs <= 0 ? 2 : 1) : o.maxargs > 0 ? r.range(1, o.maxargs) : r.range(1, 3);
		else if (o.action == A_COUNT) times = r.range(1, 4);
		else if (r.chance(1, 5)) times = 2;
		if (o.group >= 0) groupdone[o.group] = true;
		Strs joined;
		for (int t = 0; t < times; ++t) {
			std::string arg;
			if (o.action == A_CONFIG) arg = config_file(r, d, o, line, file_good);
			else if (o.hasarg()) arg = text_for(r, o, good || !r.chance(1, 4));
			Strs u;
			spell(r, all, i, o.hasarg() ? &arg : 0, joined.empty() || o.hasarg() ? u : joined);
			if (!u.empty()) { if (o.hasarg()) units.push_back(u); else { if (joined.empty()) joined = u; else units.push_back(u); } }
		}
		if (!joined.empty()) units.push_back(joined);
	}
	// Flags next to each other written as one word.
	if (r.chance(1, 3)) {
		std::string cluster = "-";
		for (size_t u = 0; u < units.size(); ) {
			if (units[u].size() == 1 && units[u][0].size() == 2 && units[u][0][0] == '-' && units[u][0][1] != '-') { cluster += units[u][0][1]; units.erase(units.begin() + u); }
			else ++u;
		}
		if (cluster.size() > 1) {
			if (cluster.size() > 2) count("cluster");
			units.push_back(Strs(1, cluster));
		}
	}
	for (size_t i = units.size(); i > 1; --i) std::swap(units[i - 1], units[r.below(i)]);
	for (size_t i = 0; i < d.opts.size(); ++i) {
		const Opt &o = d.opts[i];
		if (!o.positional) continue;
		int n = o.maxargs == 0 ? o.minargs + r.below(3) : o.minargs + r.below(o.maxargs - o.minargs + 1);
		if (o.minargs > 0 && o.has_default && r.chance(1, 4)) n = 0;
		for (int t = 0; t < n; ++t) rest.push_back(text_for(r, o, good || !r.chance(1, 4)));
		if (n < std::max(o.maxargs, 1) || o.maxargs == 0) break;      // nothing can follow
	}
	line.argv.push_back("prog");
	bool dashes = false;
	for (size_t i = 0; i < rest.size(); ++i) if (rest[i].size() > 1 && rest[i][0] == '-') dashes = true;
	if (dashes || r.chance(1, 3)) {
		for (size_t u = 0; u < units.size(); ++u) line.argv.insert(line.argv.end(), units[u].begin(), units[u].end());
		if (dashes || r.coin()) { line.argv.push_back("--"); count("terminator"); }
		line.argv.insert(line.argv.end(), rest.begin(), rest.end());
	} else {
		size_t u = 0, p = 0;
		while (u < units.size() || p < rest.size()) {
			if (p >= rest.size() || (u < units.size() && r.coin())) { line.argv.insert(line.argv.end(), units[u].begin(), units[u].end()); ++u; }
			else line.argv.push_back(rest[p++]);
		}
		if (rest.size() && units.size()) count("interleaved");
	}
	return line;
}

static void spoil(Rng &r, const Decl &d, Line &line) {
	std::vector<Opt> all = d.all();
	size_t at = 1 + r.below(line.argv.size());
	switch (r.below(9)) {
	case 0: { static const char *U[] = { "--unknown", "--unknown=5", "-Z", "--n0", "--verbosee", "-Zx", "--zz" }; line.argv.insert(line.argv.begin() + std::min(at, line.argv.size()), r.pick(U)); break; }
	case 1: {       // an option without its argument at the end
		std::vector<size_t> c;
		for (size_t i = 0; i < all.size(); ++i) if (all[i].hasarg() && !all[i].positional) c.push_back(i);
		if (!c.empty()) { const Opt &o = all[r.pick(c)]; line.argv.push_back(!o.longopt.empty() ? "--" + o.longopt : cat("-", (char)o.shortopt)); }
		break;
	}
	case 2: {       // a flag with an argument
		std::vector<size_t> c;
		for (size_t i = 0; i < all.size(); ++i) if (!all[i].hasarg() && !all[i].positional && !all[i].longopt.empty()) c.push_back(i);
		if (!c.empty()) line.argv.insert(line.argv.begin() + 1, "--" + all[r.pick(c)].longopt + "=1");
		break;
	}
	case 3: if (line.argv.size() > 1) line.argv.erase(line.argv.begin() + 1 + r.below(line.argv.size() - 1)); break;
	case 4: line.argv.push_back(r.coin() ? "extra" : "5"); if (r.coin()) line.argv.push_back("7"); break;
	case 5: {       // an ambiguous or too short name
		std::vector<size_t> c;
		for (size_t i = 0; i < all.size(); ++i) if (all[i].longopt.size() > 1) c.push_back(i);
		if (!c.empty()) { const std::string &n = all[r.pick(c)].longopt; line.argv.insert(line.argv.begin() + 1, "--" + n.substr(0, 1 + r.below(n.size() - 1)) + (r.coin() ? "=5" : "")); }
		break;
	}
	case 6: if (line.argv.size() > 1) line.argv.push_back(line.argv[1 + r.below(line.argv.size() - 1)]); break;
	case 7: {       // one more use of any option, in or out of its group
		std::vector<size_t> c;
		for (size_t i = 0; i < all.size(); ++i) if (!all[i].positional && all[i].hasresult()) c.push_back(i);
		if (!c.empty()) { size_t n = r.pick(c); std::string a = text_for(r, all[n], r.coin()); Strs u; spell(r, all, n, all[n].hasarg() ? &a : 0, u); line.argv.insert(line.argv.begin() + 1, u.begin(), u.end()); }
		break;
	}
	default: if (line.argv.size() > 2) std::swap(line.argv[1 + r.below(line.argv.size() - 1)], line.argv[1 + r.below(line.argv.size() - 1)]); break;
	}
}

// Words this check has no opinion on: an argument the conventions leave open.
static bool open_word(const Decl &d, const Line &line) {
	for (size_t i = 1; i < line.argv.size(); ++i) {
		const std::string &t = line.argv[i];
		if (t == "-" || t.compare(0, 3, "--=") == 0) return true;
	}
	return false;
}

// ---------------------------------------------------------------- the child

static void set_env(const Decl &d) {
	for (size_t i = 0; i < d.opts.size(); ++i) {
		if (d.opts[i].env.empty()) continue;
		if (d.opts[i].env_set) setenv(d.opts[i].env.c_str(), d.opts[i].env_value.c_str(), 1);
		else unsetenv(d.opts[i].env.c_str());
	}
}

static Variant parse(ArgParse &p, const Line &l) {
	std::vector<std::vector<char> > words;
	for (size_t i = 0; i < l.argv.size(); ++i) words.push_back(std::vector<char>(l.argv[i].c_str(), l.argv[i].c_str() + l.argv[i].size() + 1));
	std::vector<char *> argv;
	for (size_t i = 0; i < words.size(); ++i) argv.push_back(&words[i][0]);
	argv.push_back(0);
	return p.Parse((int)l.argv.size(), &argv[0]);
}

static void disturb(Variant v) {
	if (v.IsList()) { for (Variant::ListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) disturb(*i); v.Append("disturbed"); }
	else if (v.IsMap()) { for (Variant::MapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) disturb(i->second); v["disturbed"] = true; }
	else if (v.IsString()) v.Clear();
}

struct Child { int status; bool got_result, done; std::string report, out, err; };

static std::string slurp(int fd) {
	std::string s;
	char b[4096];
	lseek(fd, 0, SEEK_SET);
	for (ssize_t n; (n = read(fd, b, sizeof b)) > 0; ) s.append(b, n);
	close(fd);
	return s;
}
// Runs one scenario in a child: the lines are parsed one after the other by the
// parser made by `make`.
static Child in_child(const std::function<void(int)> &body) {
	int rep = memfd_create("report", 0), out = memfd_create("out", 0), err = memfd_create("err", 0);
	if (rep < 0 || out < 0 || err < 0) harness_error("memfd");
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) harness_error("fork");
	if (!pid) {
		alarm(20);
		dup2(out, 1); dup2(err, 2);
		try { body(rep); }
		catch (const std::exception &e) { dprintf(rep, "T%s\n", e.what()); }
		_exit(0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Child c;
	c.status = st;
	c.report = slurp(rep); c.out = slurp(out); c.err = slurp(err);
	c.got_result = c.report.find("RESULT\n") != std::string::npos;
	c.done = c.report.find("DONE\n") != std::string::npos;
	return c;
}
static std::string describe_line(const Line &l) {
	std::string s;
	for (size_t i = 0; i < l.argv.size(); ++i) s += (i ? " " : "") + jstr(l.argv[i]);
	for (std::map<std::string, MV>::const_iterator i = l.files.begin(); i != l.files.end(); ++i) s += cat(" file ", i->first.substr(i->first.rfind('/') + 1), l.broken.count(i->first) ? " (broken)" : "", ": ", json(i->second));
	return s;
}
static std::string describe_all(const Decl &d, const Line &l) {
	std::string env;
	for (size_t i = 0; i < d.opts.size(); ++i) if (d.opts[i].env_set) env += cat(d.opts[i].env, "=", jstr(d.opts[i].env_value), " ");
	return cat(json(from_variant(describe_decl(d))), "\n", env, describe_line(l));
}

// Move some of what a description says to a second one, to be merged after it.
static Variant take_part(Variant &desc, Rng &r) {
	Variant first = Variant::MapType, rest = Variant::MapType;
	rest["options"] = Variant::MapType;
	Variant opts = desc.Get("options", Variant(Variant::MapType)), args = desc.Get("arguments", Variant(Variant::ListType)), groups = desc.Get("groups", Variant(Variant::MapType));
	for (Variant::MapIterator i = opts.MapBegin(); i != opts.MapEnd(); ++i) (r.coin() ? first : rest)["options"].Set(i->first, i->second);
	size_t n = 0, cut = r.below(args.Size() + 1);
	for (Variant::ListIterator i = args.ListBegin(); i != args.ListEnd(); ++i) (n++ < cut ? first : rest)["arguments"].Append(*i);
	for (Variant::MapIterator g = groups.MapBegin(); g != groups.MapEnd(); ++g) {
		// members have to be declared, and "advanced" is what the last one says
		rest["groups"][g->first] = Variant(Variant::MapType);
		for (Variant::MapIterator i = g->second.MapBegin(); i != g->second.MapEnd(); ++i)
			(i->first == "members" || i->first == "advanced" || r.coin() ? rest : first)["groups"][g->first].Set(i->first, i->second);
	}
	desc = first;
	return rest;
}

// ways to come to a parser with this declaration
static const char *WAYS[] = { "direct", "rebuilt", "merged", "text", "description" };
static ArgParse make(const Decl &d, int way, uint64_t seed) {
	Rng r(seed);
	bool late = r.coin();
	if (way == 0) { ArgParse p("prog", d.addhelp); declare(p, d, r, late); if (r.coin()) disturb(p.GetDescription()); return p; }
	ArgParse q("prog", d.addhelp);
	// The parser keeps to what the description said when it was merged.
	if (way == 4) {
		Variant desc = describe_decl(d), rest = r.coin() ? take_part(desc, r) : Variant();
		q.Merge(desc); disturb(desc);
		if (rest.IsMap()) { q.Merge(rest); disturb(rest); }
		if (d.config_defaults) q.AddConfigDefaults();
		return q;
	}
	ArgParse p("prog", r.coin());
	declare(p, d, r, late);
	if (way == 1) { Variant desc = p.GetDescription(); q.Merge(desc); if (r.coin()) disturb(desc); }
	else if (way == 2) q.Merge(p);
	else q.Merge(DeserializeJSON(SerializeJSON(p.GetDescription())));
	return q;
}

// Elements of a list left out come out null, which the generated schema's types do not allow (known finding).
static bool has_hole(const MV &v) {
	if (v.k == K_NULL) return true;
	for (size_t i = 0; i < v.l.size(); ++i) if (has_hole(v.l[i])) return true;
	for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) if (has_hole(i->second)) return true;
	return false;
}

static std::string match(const MV &got, const std::vector<MV> &want) {
	std::string first;
	for (size_t i = 0; i < want.size(); ++i) { std::string d = where(got, want[i]); if (d.empty()) return ""; if (!i) first = d; }
	return first;
}

// Parse one line and report what is wrong with the result.
static void parse_and_report(int rep, ArgParse &p, const Line &l, const Outcome &o) {
	Variant v = parse(p, l);
	dprintf(rep, "RESULT\n");
	MV got = from_variant(v);
	std::string m = o.results.empty() ? "" : match(got, o.results);
	if (!m.empty()) dprintf(rep, "Vwrong-result\t%s, expected %s got %s\n", printable(m).c_str(), printable(json(o.results[0]), 700).c_str(), printable(json(got), 700).c_str());
	if (!has_hole(got)) {
		SchemaResult s = SchemaValidate(p.GenerateSchema(), v);
		if (s.Error()) dprintf(rep, "Vresult-violates-schema\t%s does not satisfy the generated schema: %s\n", printable(json(got)).c_str(), printable(s.PrettyPrintMessage(), 600).c_str());
		dprintf(rep, "S\n");
	}
	disturb(v);
}
static void complain(const Child &c, const std::string &ctx) {
	for (std::istringstream in(c.report); in; ) {
		std::string ln;
		if (!std::getline(in, ln)) break;
		if (ln[0] == 'V') { size_t tab = ln.find('\t'); throw Fail(ln.substr(1, tab - 1), ln.substr(tab + 1) + ctx); }
		if (ln[0] == 'T') throw Fail("raised", ln + ctx);
	}
}

struct Use { Line line; Outcome outcome; int way; bool same; };

// Valid lines one after the other, by the same parser or by others of the same declaration.
static void judge_valid(const Decl &d, const std::vector<Use> &uses, uint64_t seed) {
	Child c = in_child([&](int rep) {
		set_env(d);
		ArgParse p;
		for (size_t i = 0; i < uses.size(); ++i) {
			if (!uses[i].same) { p = make(d, uses[i].way, seed); if ((seed + i) % 16 == 0) { p.Validate(); dprintf(rep, "OKDESC\n"); } }
			dprintf(rep, "LINE %d\n", (int)i);
			parse_and_report(rep, p, uses[i].line, uses[i].outcome);
		}
		dprintf(rep, "DONE\n");
	});
	std::string ctx;
	size_t last = 0;
	for (size_t i = 0; i < uses.size(); ++i) {
		if (c.report.find(cat("LINE ", i, "\n")) == std::string::npos) break;
		last = i;
		ctx += cat(i ? "; then (" : " (", uses[i].same ? "same parser" : WAYS[uses[i].way], ") ", describe_line(uses[i].line));
	}
	ctx += " stderr: " + printable(c.err, 300);
	VH_CHECK(!WIFSIGNALED(c.status) && WEXITSTATUS(c.status) != 99, "crash", "the parser ended with status ", c.status, ctx, printable(c.err, 3000));
	complain(c, ctx);
	VH_CHECK(c.done && WIFEXITED(c.status) && WEXITSTATUS(c.status) == 0, last && uses[last].same ? "valid-line-refused-later" : "valid-line-refused", "a valid command line gives no result", ctx);
	for (size_t i = 0; i < uses.size(); ++i) { count("result"); if (uses[i].same) count("parsed-again"); else count(WAYS[uses[i].way]); }
	if (c.report.find("\nS\n") != std::string::npos) count("schema-checked");
	if (c.report.find("OKDESC\n") != std::string::npos) count("description-validated");
}

static void judge(const Decl &d, const Line &l, const Outcome &o, int way, uint64_t seed) {
	Child c = in_child([&](int rep) {
		set_env(d);
		ArgParse p = make(d, way, seed);
		parse_and_report(rep, p, l, o);
		dprintf(rep, "DONE\n");
	});
	std::string ctx = cat(" (", WAYS[way], ") ", describe_line(l), " stderr: ", printable(c.err, 300));
	VH_CHECK(!WIFSIGNALED(c.status) && WEXITSTATUS(c.status) != 99, "crash", "the parser ended with status ", c.status, ctx, printable(c.err, 3000));
	complain(c, ctx);
	bool good_exit = WIFEXITED(c.status) && WEXITSTATUS(c.status) == 0;
	switch (o.verdict) {
	case RESULT:
		VH_CHECK(c.done && good_exit, "valid-line-refused", "a valid command line gives no result", ctx);
		count("result");
		if (c.report.find("\nS\n") != std::string::npos) count("schema-checked");
		break;
	case REFUSED:
		VH_CHECK(!c.got_result, "invalid-line-accepted", "an invalid command line (", o.why, ") gives a result", ctx);
		VH_CHECK(!good_exit, "refused-with-success", "an invalid command line (", o.why, ") ends with exit status 0", ctx);
		VH_CHECK(!c.err.empty(), "refused-silently", "an invalid command line (", o.why, ") is refused without a message", ctx);
		count("refused");
		count(o.why.compare(0, 4, "type") == 0 ? "refused-type" : o.why.compare(0, 5, "value") == 0 || o.why.compare(0, 7, "element") == 0 ? "refused-value" : o.why.compare(0, 7, "missing") == 0 ? "refused-missing" :
			o.why.compare(0, 7, "unknown") == 0 ? "refused-unknown" : o.why == "exclusive options" ? "refused-exclusive" : o.why == "required group" ? "refused-required-group" : o.why == "no argument" ? "refused-no-argument" :
			o.why == "superfluous argument" ? "refused-superfluous" : o.why == "extra argument" ? "refused-extra" : o.why.compare(0, 8, "too many") == 0 ? "refused-too-many" : o.why.compare(0, 7, "too few") == 0 ? "refused-too-few" :
			o.why.compare(0, 11, "environment") == 0 ? "refused-environment" : o.why == "configuration file" ? "refused-configuration-file" : "refused-other");
		break;
	case HELP: case ADVHELP: {
		VH_CHECK(!c.got_result, "help-gives-result", "asking for help gives a result", ctx);
		VH_CHECK(good_exit, "help-status", "asking for help ends with status ", c.status, ctx);
		std::string all = c.out + c.err;
		for (size_t i = 0; i < d.opts.size(); ++i) {
			const Opt &q = d.opts[i];
			bool hidden = o.verdict == HELP && !q.positional && (q.advanced || (q.group >= 0 && d.groups[q.group].advanced && !(d.groups[q.group].title.empty() && d.groups[q.group].description.empty())));
			bool shown = all.find(q.help) != std::string::npos;
			if (!hidden) {
				VH_CHECK(shown, "help-incomplete", "the help does not show ", q.pathtext(), ctx, " help: ", printable(all, 1500));
				if (!q.longopt.empty()) VH_CHECK(all.find("--" + q.longopt) != std::string::npos, "help-incomplete", "the help does not show --", q.longopt, ctx);
				if (q.shortopt) VH_CHECK(all.find(cat("-", (char)q.shortopt)) != std::string::npos, "help-incomplete", "the help does not show -", (char)q.shortopt, ctx);
			} else VH_CHECK(!shown, "help-shows-hidden", "the help shows ", q.pathtext(), " which is advanced", ctx);
		}
		count(o.verdict == HELP ? "help" : "adv-help");
		break;
	}
	case PRINT: {
		VH_CHECK(!c.got_result, "print-gives-result", "printing the configuration gives a result", ctx);
		VH_CHECK(good_exit, "print-status", "printing the configuration ends with status ", c.status, ctx);
		MV got;
		try { got = from_variant(DeserializeJSON(c.out)); }
		catch (const std::exception &e) { throw Fail("print-unreadable", cat("the printed configuration cannot be read: ", e.what(), ": ", printable(c.out), ctx)); }
		std::string m = match(got, o.results);
		VH_CHECK(m.empty(), "wrong-print", "the printed configuration is not the result: ", m, ctx);
		count("print");
		// It can be loaded again.
		std::string name = cat(scratch(), "/printed");
		FILE *f = fopen(name.c_str(), "w");
		if (!f || fwrite(c.out.data(), 1, c.out.size(), f) != c.out.size() || fclose(f)) harness_error("cannot write");
		Line load;
		load.argv.push_back("prog"); load.argv.push_back("--config=" + name);
		Outcome lo;
		lo.results.push_back(got);
		Child b = in_child([&](int rep) {
			set_env(d);
			ArgParse p = make(d, way, seed);
			Variant v = parse(p, load);
			dprintf(rep, "RESULT\n");
			std::string m = match(from_variant(v), lo.results);
			if (!m.empty()) dprintf(rep, "V%s\n", printable(m).c_str());
			dprintf(rep, "DONE\n");
		});
		VH_CHECK(b.got_result && b.done, "printed-not-loadable", "the printed configuration is refused: ", printable(c.out), " ", printable(b.err), ctx);
		VH_CHECK(b.report.find("\nV") == std::string::npos, "printed-loads-different", "the printed configuration loads as something else: ", b.report, " from ", printable(c.out), ctx);
		count("printed-and-loaded");
		break;
	}
	case NOTHING:
		if (o.why != "open") VH_CHECK(!c.got_result, "invalid-line-accepted", "an invalid command line gives a result", ctx);
		count("not-judged");
		break;
	}
}

static void one(Ctx &ctx) {
	Rng &r = ctx.rng;
	file_number = 0;
	Decl d = gen_decl(r);
	uint64_t seed = r.next();
	std::vector<Use> valid;
	int lines = bad_mode ? 1 : r.range(2, 5);
	for (int n = 0; n < lines; ++n) {
		Line l = gen_line(r, d, !bad_mode || r.chance(2, 3));
		if (bad_mode && !(l.files_only && r.chance(3, 4)) && r.chance(2, 3)) spoil(r, d, l);
		if (n + 1 == lines && r.chance(1, 6) && d.addhelp) {
			l.argv.insert(l.argv.begin() + 1, d.anyadvanced() && r.coin() ? "--adv-help" : "--help");
		} else if (n + 1 == lines && r.chance(1, 3) && d.config_defaults) l.argv.insert(l.argv.begin() + 1, "--print-config");
		if (open_word(d, l)) { count("not-judged"); continue; }
		Use u;
		u.line = l;
		u.outcome = predict(d, l);
		u.way = r.coin() ? 0 : 1 + r.below(4);
		u.same = !valid.empty() && r.coin();
		describe(cat(describe_all(d, l), "\nway: ", WAYS[u.way]));
		nontrivial(hash(describe_all(d, l)));
		if (r.chance(1, 60)) sample(describe_all(d, l));
		if (u.outcome.verdict == RESULT && !bad_mode) valid.push_back(u);
		else if (bad_mode || u.outcome.verdict != REFUSED) { judge(d, l, u.outcome, u.way, seed); count(WAYS[u.way]); }
		else count("unlucky");
	}
	if (valid.empty()) return;
	describe(cat(describe_all(d, valid[0].line)));
	judge_valid(d, valid, seed);
}

// ---------------------------------------------------------------- known finding

// An element of a list that was not given comes out null; the generated schema wants its declared type.
static void probe_list_hole(Ctx &) {
	ArgParse p("prog", false);
	p.AddOption("list[0]", 0, "first").Type(ARGTYPE_INT);
	p.AddOption("list[1]", 0, "second").Type(ARGTYPE_INT);
	Line l;
	l.argv.push_back("prog"); l.argv.push_back("--second=5");
	Variant v = parse(p, l);
	SchemaResult s = SchemaValidate(p.GenerateSchema(), v);
	VH_CHECK(!s.Error(), "result-violates-schema", "--second=5 for list[1] without list[0] gives ", json(from_variant(v)), " which the generated schema refuses");
}

int main(int argc, char **argv) {
	for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--bad")) bad_mode = atoi(argv[i + 1]);
	unsetenv("POSIXLY_CORRECT");
	if (bad_mode) add_probe("list-hole", probe_list_hole);
	Opts o;
	o.leak = false;
	return run(argc, argv, one, o);
}
