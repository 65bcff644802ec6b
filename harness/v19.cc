// V19: schema validation against a model of JSON schema draft 4.
// V20 (--refs 1): the same with parts of the schema behind references.
// V33 (--where 1): where the reported errors point.
#include "model.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <arpa/inet.h>
#include <fstream>
#include <math.h>
#include <mutex>
#include <netinet/in.h>
#include <regex>
#include <set>
#include <sstream>
#include <strings.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

// ---- model -----------------------------------------------------------------

// Numbers here are integers of 64 bits or short binary fractions.
struct Num { bool whole; __int128 i; double f; };
static Num num(const MV &v) {
	Num n = { true, 0, 0 };
	if (v.k == K_INT) n.i = v.i;
	else if (v.k == K_UINT) n.i = v.u;
	else if (v.f == floor(v.f)) n.i = (int64_t)v.f;
	else { n.whole = false; n.f = v.f; }
	return n;
}
static int cmp(const Num &a, const Num &b) {
	if (a.whole && b.whole) return a.i < b.i ? -1 : a.i > b.i;
	if (!a.whole && !b.whole) return a.f < b.f ? -1 : a.f > b.f;
	if (!b.whole) { __int128 fl = (__int128)floor(b.f); return a.i <= fl ? -1 : 1; }
	return -cmp(b, a);
}
static bool equal(const MV &a, const MV &b) {
	if (a.isnum() && b.isnum()) return cmp(num(a), num(b)) == 0;
	if (a.k != b.k) return false;
	switch (a.k) {
	case K_NULL: return true;
	case K_BOOL: return a.b == b.b;
	case K_STR: return a.s == b.s;
	case K_LIST:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!equal(a.l[i], b.l[i])) return false;
		return true;
	default: {
		if (a.m.size() != b.m.size()) return false;
		std::map<std::string, MV>::const_iterator i = a.m.begin(), j = b.m.begin();
		for (; i != a.m.end(); ++i, ++j) if (i->first != j->first || !equal(i->second, j->second)) return false;
		return true;
	}
	}
}
static bool multiple(const MV &v, const MV &of) {
	Num a = num(v), b = num(of);
	if (a.whole && b.whole) return a.i % b.i == 0;
	// both have few binary places
	return fmod(a.whole ? (double)a.i : a.f, b.whole ? (double)b.i : b.f) == 0;
}
static bool is_type(const MV &v, const std::string &t) {
	if (t == "array") return v.k == K_LIST;
	if (t == "boolean") return v.k == K_BOOL;
	if (t == "integer") return v.k == K_INT || v.k == K_UINT;
	if (t == "null") return v.k == K_NULL;
	if (t == "number") return v.isnum();
	if (t == "object") return v.k == K_MAP;
	return v.k == K_STR;
}
static const std::regex &regex(const std::string &s) {
	static std::map<std::string, std::regex> known;
	std::map<std::string, std::regex>::iterator i = known.find(s);
	if (i == known.end()) i = known.insert(std::make_pair(s, std::regex(s, std::regex::ECMAScript))).first;
	return i->second;
}
static const MV *get(const MV &m, const char *k) {
	std::map<std::string, MV>::const_iterator i = m.m.find(k);
	return i == m.m.end() ? 0 : &i->second;
}
typedef std::map<std::string, MV> Refs;
static const Refs *refs;            // what each reference means

static size_t characters(const std::string &s) {
	size_t n = 0;
	for (size_t i = 0; i < s.size(); ++i) n += ((unsigned char)s[i] & 0xC0) != 0x80;
	return n;
}
// Whether a text has a format; grey when the specification leaves it to the reader's leniency.
static bool grey;
static bool formatted(const std::string &f, const std::string &t) {
	if (f == "regex") {
		try { std::regex re(t, std::regex::ECMAScript); } catch (const std::regex_error &) { return false; }
		return true;
	}
	static const char *day = "[0-9]{4}-(0[1-9]|1[0-2])-(0[1-9]|1[0-9]|2[0-8])", *clock = "([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]";
	static const std::regex moment(cat("^", day, "[Tt]", clock, "([.][0-9]+)?([Zz]|[+-]([01][0-9]|2[0-3]):[0-5][0-9])$")),
		almost("^[0-9]{4}(-[0-9]{2}(-[0-9]{2}([Tt ][0-9]{2}(:[0-9]{2}(:[0-9]{2}([.,][0-9]+)?)?)?)?)?)?([Zz]|[+-][0-9]{2}(:?[0-9]{2})?)?$"),
		date(cat("^", day, "$")), dateish("^[0-9]{4}-[0-9]{2}-[0-9]{2}$"),
		time(cat("^", clock, "$")), timeish("^[0-9]{2}:[0-9]{2}:[0-9]{2}([.,][0-9]+)?([Zz]|[+-][0-9]{2}(:?[0-9]{2})?)?$");
	bool which[3] = { f == "date-time", f == "date", f == "time" };
	if (!which[0] && !which[1] && !which[2]) return true;
	if (std::regex_search(t, which[0] ? moment : which[1] ? date : time)) return true;
	if (std::regex_search(t, which[0] ? almost : which[1] ? dateish : timeish)) grey = true;
	return false;
}
static bool valid(const MV &s, const MV &v) {
	const MV *k;
	if ((k = get(s, "$ref"))) {
		Refs::const_iterator i = refs->find(k->s);
		if (i == refs->end()) harness_error(cat("no meaning for ", k->s));
		return valid(i->second, v);
	}
	if ((k = get(s, "type"))) {
		bool ok = false;
		if (k->k == K_LIST) for (size_t i = 0; i < k->l.size(); ++i) ok = ok || is_type(v, k->l[i].s);
		else ok = is_type(v, k->s);
		if (!ok) return false;
	}
	if ((k = get(s, "enum"))) {
		bool ok = false;
		for (size_t i = 0; i < k->l.size(); ++i) ok = ok || equal(v, k->l[i]);
		if (!ok) return false;
	}
	if (v.isnum()) {
		if ((k = get(s, "multipleOf")) && !multiple(v, *k)) return false;
		const MV *x;
		if ((k = get(s, "minimum"))) {
			int c = cmp(num(v), num(*k));
			if (c < 0 || (c == 0 && (x = get(s, "exclusiveMinimum")) && x->b)) return false;
		}
		if ((k = get(s, "maximum"))) {
			int c = cmp(num(v), num(*k));
			if (c > 0 || (c == 0 && (x = get(s, "exclusiveMaximum")) && x->b)) return false;
		}
	}
	if (v.k == K_STR) {
		if ((k = get(s, "minLength")) && characters(v.s) < (size_t)k->i) return false;
		if ((k = get(s, "maxLength")) && characters(v.s) > (size_t)k->i) return false;
		if ((k = get(s, "pattern")) && !std::regex_search(v.s, regex(k->s))) return false;
		if ((k = get(s, "format")) && !formatted(k->s, v.s)) return false;
	}
	if (v.k == K_LIST) {
		if ((k = get(s, "minItems")) && v.l.size() < (size_t)k->i) return false;
		if ((k = get(s, "maxItems")) && v.l.size() > (size_t)k->i) return false;
		if ((k = get(s, "uniqueItems")) && k->b)
			for (size_t i = 0; i < v.l.size(); ++i) for (size_t j = 0; j < i; ++j) if (equal(v.l[i], v.l[j])) return false;
		if ((k = get(s, "items"))) {
			const MV *more = get(s, "additionalItems");
			for (size_t i = 0; i < v.l.size(); ++i) {
				if (k->k == K_MAP) { if (!valid(*k, v.l[i])) return false; }
				else if (i < k->l.size()) { if (!valid(k->l[i], v.l[i])) return false; }
				else if (more && more->k == K_BOOL) { if (!more->b) return false; }
				else if (more && !valid(*more, v.l[i])) return false;
			}
		}
	}
	if (v.k == K_MAP) {
		if ((k = get(s, "minProperties")) && v.m.size() < (size_t)k->i) return false;
		if ((k = get(s, "maxProperties")) && v.m.size() > (size_t)k->i) return false;
		if ((k = get(s, "required"))) for (size_t i = 0; i < k->l.size(); ++i) if (!v.m.count(k->l[i].s)) return false;
		const MV *props = get(s, "properties"), *pats = get(s, "patternProperties"), *more = get(s, "additionalProperties");
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) {
			bool found = false;
			const MV *p;
			if (props && (p = get(*props, i->first.c_str()))) { found = true; if (!valid(*p, i->second)) return false; }
			if (pats) for (std::map<std::string, MV>::const_iterator j = pats->m.begin(); j != pats->m.end(); ++j)
				if (std::regex_search(i->first, regex(j->first))) { found = true; if (!valid(j->second, i->second)) return false; }
			if (found || !more) continue;
			if (more->k == K_BOOL) { if (!more->b) return false; }
			else if (!valid(*more, i->second)) return false;
		}
		if ((k = get(s, "dependencies"))) {
			for (std::map<std::string, MV>::const_iterator i = k->m.begin(); i != k->m.end(); ++i) {
				if (!v.m.count(i->first)) continue;
				if (i->second.k == K_MAP) { if (!valid(i->second, v)) return false; }
				else for (size_t j = 0; j < i->second.l.size(); ++j) if (!v.m.count(i->second.l[j].s)) return false;
			}
		}
	}
	if ((k = get(s, "allOf"))) for (size_t i = 0; i < k->l.size(); ++i) if (!valid(k->l[i], v)) return false;
	if ((k = get(s, "anyOf"))) {
		bool ok = false;
		for (size_t i = 0; i < k->l.size(); ++i) ok = ok || valid(k->l[i], v);
		if (!ok) return false;
	}
	if ((k = get(s, "oneOf"))) {
		int n = 0;
		for (size_t i = 0; i < k->l.size(); ++i) n += valid(k->l[i], v);
		if (n != 1) return false;
	}
	if ((k = get(s, "not")) && valid(*k, v)) return false;
	return true;
}

// ---- generation ------------------------------------------------------------

static const char *NAMES[] = { "a", "b", "c", "ab", "x1", "long name", "id", "$ref", "enum", "default", "properties" };
static std::string name(Rng &r) { return NAMES[r.chance(1, 6) ? 6 + r.below(5) : r.below(6)]; }
static MV number(Rng &r, bool whole_floats) {
	static const int64_t edge[] = { INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 9007199254740993LL, -9007199254740993LL, 4294967296LL, -2147483649LL };
	switch (r.below(12)) {
	case 0: return MV::Int(edge[r.below(8)]);
	case 1: return MV::Uint(r.coin() ? UINT64_MAX - r.below(2) : (uint64_t)INT64_MAX + 1 + r.below(2));
	case 2: case 3: case 4: {
		double f = r.range(-12, 12) + (whole_floats && r.coin() ? 0 : 0.25 * r.range(1, 3));
		return MV::Float(f);
	}
	default: return MV::Int(r.range(-6, 12));
	}
}
// The same value with some of its whole numbers held as the other integer kind.
static MV respelled(Rng &r, MV v) {
	if (v.k == K_INT && v.i >= 0 && r.coin()) return MV::Uint((uint64_t)v.i);
	if (v.k == K_UINT && v.u <= (uint64_t)INT64_MAX && r.coin()) return MV::Int((int64_t)v.u);
	for (auto &x : v.l) x = respelled(r, x);
	for (auto &x : v.m) x.second = respelled(r, x.second);
	return v;
}
// The same number, maybe of another kind.
static MV kindred(Rng &r, const MV &v) {
	if (v.k == K_INT && v.i > -1000000 && v.i < 1000000 && r.coin()) return MV::Float((double)v.i);
	return respelled(r, v);
}
static const char *TIMES[] = { "2026-11-15T09:30:00Z", "1985-04-12T23:20:50.52Z", "1996-12-19T16:39:57-08:00", "1937-01-01T12:00:27.87+00:20", "2026-02-03t04:05:06z", "2026-11-15", "0001-01-01", "09:30:00", "23:59:59", "tomorrow", "15.11.2026", "9:30", "(a", "[a-", "a(b)c", "x{2}" };
static MV gen_value(Rng &r, int level = 0) {
	static const char *strings[] = { "", "a", "b", "ab", "abc", "aaa", "1", "12", "a1", "x y", "true", "null", "\xC3\xA9", "a\xE2\x82\xAC" "b", "\xF0\x9F\x98\x80", "\xC3\xA9\xC3\xA9\xC3\xA9", "abababababababababab", "a\nb", "b\na", "1\nab\n" };
	switch (r.below(level > 2 ? 6 : 10)) {
	case 0: return MV::Null();
	case 1: return MV::Bool(r.coin());
	case 2: case 3: return number(r, false);
	case 4: case 5: return MV::Str(r.chance(1, 6) ? TIMES[r.below(16)] : strings[r.below(20)]);
	case 6: case 7: {
		MV l = MV::List();
		if (r.chance(1, 4)) {
			for (int n = r.range(2, 4); n > 0; --n) l.l.push_back(respelled(r, MV::Int(r.below(8))));
			return l;
		}
		for (int n = r.below(5); n > 0; --n) l.l.push_back(!l.l.empty() && r.chance(1, 4) ? respelled(r, r.pick(l.l)) : gen_value(r, level + 1));
		return l;
	}
	default: {
		MV m = MV::Map();
		for (int n = r.below(5); n > 0; --n) m.m[name(r)] = gen_value(r, level + 1);
		return m;
	}
	}
}
static const char *TYPES[] = { "array", "boolean", "integer", "null", "number", "object", "string" };
static const char *type_of(const MV &v) {
	for (int i = 0; i < 7; ++i) if (is_type(v, TYPES[i])) return TYPES[i];
	return "string";
}
static const char *PATTERNS[] = { "^a", "b$", "^a*$", "[0-9]+", "^[a-c]{2,3}$", "^(ab|b|1)+$", "x.y", "^$", "a|1", "." };
static MV str_list(Rng &r, int lo, int hi) {
	MV l = MV::List();
	std::set<std::string> seen;
	for (int n = r.range(lo, hi); n > 0; --n) { std::string k = name(r); if (seen.insert(k).second) l.l.push_back(MV::Str(k)); }
	return l;
}
// near: a value the schema should be about, if any
static MV gen_schema(Rng &r, const MV *near, int level = 0);
static MV sub_schema(Rng &r, const MV *near, int level) { return gen_schema(r, near, level + 1); }
static MV schemas(Rng &r, const MV *near, int level) {
	MV l = MV::List();
	for (int n = r.range(1, 3); n > 0; --n) l.l.push_back(sub_schema(r, r.chance(3, 4) ? near : 0, level));
	return l;
}
static MV count_near(Rng &r, size_t n, bool lower) {
	int64_t v = (int64_t)n + (lower ? -r.below(3) : r.below(3)) + (r.chance(1, 5) ? (lower ? 1 : -1) : 0);
	return MV::Int(v < 0 ? 0 : v);
}
static MV gen_schema(Rng &r, const MV *near, int level) {
	MV s = MV::Map();
	MV made;
	if (!near) { made = gen_value(r, level); near = &made; }
	const MV &v = *near;
	if (r.chance(1, 10)) return s;
	for (int n = r.range(1, level > 2 ? 2 : 3); n > 0; --n) {
		int pick = r.below(level > 3 ? 8 : 12);
		if (pick == 0) {
			if (r.coin()) s.m["type"] = MV::Str(r.chance(3, 4) ? type_of(v) : TYPES[r.below(7)]);
			else {
				MV l = MV::List();
				std::set<std::string> seen;
				for (int k = r.range(1, 3); k > 0; --k) { std::string t = r.coin() ? type_of(v) : TYPES[r.below(7)]; if (seen.insert(t).second) l.l.push_back(MV::Str(t)); }
				s.m["type"] = l;
			}
			count("type");
		} else if (pick == 1) {
			MV l = MV::List();
			bool in = r.chance(2, 3);
			for (int k = r.range(1, 4); k > 0; --k) {
				MV x = in && k == 1 ? v : gen_value(r, 2);
				// the same number in another spelling
				if (x.k == K_INT && x.i >= -1000 && x.i <= 1000 && r.chance(1, 3)) x = MV::Float(x.i);
				bool dup = false;
				for (size_t i = 0; i < l.l.size(); ++i) dup = dup || equal(l.l[i], x);
				if (!dup) l.l.push_back(x);
			}
			s.m["enum"] = l;
			count("enum");
		} else if (pick < 6) {
			// keywords for the kind of value
			const MV &w = r.chance(5, 6) ? v : made;
			switch (w.k) {
			case K_INT: case K_UINT: case K_FLOAT:
				if (r.chance(1, 3)) {
					static const double of[] = { 1, 2, 3, 0.5, 0.25, 1.5, 7, 4 };
					double f = of[r.below(8)];
					// fractions only for numbers a double holds
					s.m["multipleOf"] = f == floor(f) && r.coin() ? MV::Int((int64_t)f) : (w.k == K_FLOAT || (w.k == K_INT && w.i > -1000 && w.i < 1000)) ? MV::Float(f) : MV::Int(3);
					count("multiple");
				}
				if (r.coin()) { s.m["minimum"] = r.chance(1, 3) ? kindred(r, w) : number(r, true); if (r.coin()) s.m["exclusiveMinimum"] = MV::Bool(r.coin()); count("minimum"); }
				if (r.coin()) { s.m["maximum"] = r.chance(1, 3) ? kindred(r, w) : number(r, true); if (r.coin()) s.m["exclusiveMaximum"] = MV::Bool(r.coin()); count("maximum"); }
				break;
			case K_STR:
				if (r.coin()) s.m["minLength"] = count_near(r, characters(w.s), true);
				if (r.coin()) s.m["maxLength"] = count_near(r, characters(w.s), false);
				if (r.coin()) s.m["pattern"] = MV::Str(PATTERNS[r.below(10)]);
				if (r.chance(1, 8) || (w.s.size() > 1 && r.chance(3, 4) && (isdigit((unsigned char)w.s[1]) || w.s[0] == '(' || w.s[0] == '['))) {
					static const char *f[] = { "date-time", "date", "time", "regex", "shoe-size" };
					s.m["format"] = MV::Str(f[isdigit((unsigned char)w.s[0]) && r.coin() ? (w.s.size() > 10 ? 0 : w.s.size() == 10 ? 1 : 2) : r.below(5)]);
					count(("format-" + s.m["format"].s).c_str());
				}
				count("string");
				break;
			case K_LIST:
				if (r.chance(1, 3)) s.m["minItems"] = count_near(r, w.l.size(), true);
				if (r.chance(1, 3)) s.m["maxItems"] = count_near(r, w.l.size(), false);
				if (r.chance(1, 3)) { s.m["uniqueItems"] = MV::Bool(r.chance(4, 5)); count("unique"); }
				if (r.coin()) s.m["items"] = sub_schema(r, w.l.empty() ? 0 : &w.l[r.below(w.l.size())], level);
				else {
					MV l = MV::List();
					for (size_t i = 0; i < w.l.size() && r.chance(4, 5); ++i) l.l.push_back(sub_schema(r, &w.l[i], level));
					if (l.l.empty()) l.l.push_back(sub_schema(r, 0, level));
					s.m["items"] = l;
					if (r.coin()) s.m["additionalItems"] = r.coin() ? MV::Bool(r.coin()) : sub_schema(r, w.l.empty() ? 0 : &w.l.back(), level);
				}
				count("array");
				break;
			case K_MAP: {
				if (r.chance(1, 4)) s.m["minProperties"] = count_near(r, w.m.size(), true);
				if (r.chance(1, 4)) s.m["maxProperties"] = count_near(r, w.m.size(), false);
				if (r.chance(1, 3)) {
					MV l = str_list(r, 1, 2);
					if (r.coin()) {
						MV own = MV::List();
						for (std::map<std::string, MV>::const_iterator i = w.m.begin(); i != w.m.end(); ++i) if (r.chance(2, 3)) own.l.push_back(MV::Str(i->first));
						if (!own.l.empty()) l = own;
					}
					s.m["required"] = l;
				}
				if (r.chance(2, 3)) {
					MV p = MV::Map();
					for (std::map<std::string, MV>::const_iterator i = w.m.begin(); i != w.m.end(); ++i) if (r.chance(2, 3)) p.m[i->first] = sub_schema(r, &i->second, level);
					if (r.chance(1, 3)) p.m[name(r)] = sub_schema(r, 0, level);
					s.m["properties"] = p;
				}
				const MV *some = w.m.empty() ? 0 : &w.m.begin()->second;
				if (r.chance(1, 3)) { MV p = MV::Map(); for (int k = r.range(1, 3); k > 0; --k) p.m[PATTERNS[r.below(10)]] = sub_schema(r, some, level); s.m["patternProperties"] = p; count("pattern-properties"); }
				if (r.chance(1, 3)) s.m["additionalProperties"] = r.coin() ? MV::Bool(r.coin()) : sub_schema(r, some, level);
				if (r.chance(1, 3)) {
					MV d = MV::Map();
					for (int k = r.range(1, 2); k > 0; --k) d.m[name(r)] = r.coin() ? str_list(r, 1, 2) : sub_schema(r, &w, level);
					s.m["dependencies"] = d;
					count("dependencies");
				}
				count("object");
				break;
			}
			default: break;
			}
		} else {
			static const char *comb[] = { "allOf", "anyOf", "oneOf" };
			int k = r.below(4);
			if (k < 3) s.m[comb[k]] = schemas(r, near, level);
			else s.m["not"] = sub_schema(r, r.coin() ? near : 0, level);
			count("combinator");
		}
	}
	return s;
}
// fractional multiples are only meant for numbers a double holds exactly
static bool big_numbers(const MV &v) {
	if (v.k == K_UINT || (v.k == K_INT && (v.i > 100000 || v.i < -100000))) return true;
	for (size_t i = 0; i < v.l.size(); ++i) if (big_numbers(v.l[i])) return true;
	for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) if (big_numbers(i->second)) return true;
	return false;
}
static bool float_multiple(const MV &s) {
	const MV *k = get(s, "multipleOf");
	if (k && k->k == K_FLOAT) return true;
	for (size_t i = 0; i < s.l.size(); ++i) if (float_multiple(s.l[i])) return true;
	for (std::map<std::string, MV>::const_iterator i = s.m.begin(); i != s.m.end(); ++i) if (float_multiple(i->second)) return true;
	return false;
}
static int schema_depth(const MV &s) { return depth(s); }

static bool judge(const SchemaResult &res, const std::string &what) {
	bool bad = res.Error();
	VH_CHECK(!res.SchemaErrors(), "schema-error", what, " ", printable(res.PrettyPrintMessage(), 600));
	VH_CHECK(bad == !res.GetErrors().empty(), "errors", what);
	if (bad) {
		VH_CHECK(!res.GetErrors()[0].GetMessage().empty() && !res.PrettyPrintMessage().empty(), "empty-error", what);
	} else VH_CHECK(res.PrettyPrintMessage().empty(), "message-on-success", what, " ", res.PrettyPrintMessage());
	return !bad;
}
static bool pair(Rng &r, MV &s, MV &v) {
	v = gen_value(r);
	s = gen_schema(r, r.chance(5, 6) ? &v : 0);
	Refs none;
	const Refs *had = refs;
	refs = &none;
	grey = false;
	valid(s, v);
	refs = had;
	if (grey) return false;
	return schema_depth(s) < 40 && !(float_multiple(s) && big_numbers(v));
}

// A document that differs in one place.
static void edit(Rng &r, MV &v) {
	if (v.k == K_LIST && !v.l.empty() && r.chance(2, 3)) return edit(r, v.l[r.below(v.l.size())]);
	if (v.k == K_MAP && !v.m.empty() && r.chance(2, 3)) {
		std::map<std::string, MV>::iterator i = v.m.begin();
		std::advance(i, r.below(v.m.size()));
		return edit(r, i->second);
	}
	if (r.chance(1, 6)) { v = gen_value(r, 3); return; }
	switch (v.k) {
	case K_INT: if (v.i < 1000000 && v.i > -1000000) v.i += r.range(-2, 2); break;
	case K_FLOAT: v.f += r.coin() ? 0.5 : -0.5; if (v.f == floor(v.f)) v.f += 0.25; break;
	case K_STR: if (!v.s.empty() && r.coin() && !(v.s[v.s.size() - 1] & 0x80)) v.s.resize(v.s.size() - 1); else v.s += r.coin() ? 'a' : '1'; break;
	case K_LIST:
		if (!v.l.empty() && r.coin()) v.l.erase(v.l.begin() + r.below(v.l.size()));
		else if (!v.l.empty() && r.coin()) { MV x = respelled(r, v.l[r.below(v.l.size())]); v.l.insert(v.l.begin() + r.below(v.l.size() + 1), x); }
		else v.l.push_back(gen_value(r, 3));
		break;
	case K_MAP:
		if (!v.m.empty() && r.coin()) { std::map<std::string, MV>::iterator i = v.m.begin(); std::advance(i, r.below(v.m.size())); v.m.erase(i); }
		else v.m[name(r)] = gen_value(r, 3);
		break;
	case K_BOOL: v.b = !v.b; break;
	default: v = gen_value(r, 3);
	}
}
// Documents next to this one for which the schema has the other verdict.
static void neighbours(Rng &r, const MV &s, const MV &v, bool want) {
	int found = 0;
	for (int n = 0; n < 10 && found < 2; ++n) {
		MV w = v;
		edit(r, w);
		grey = false;
		if (valid(s, w) == want || grey || (float_multiple(s) && big_numbers(w))) continue;
		std::string what = cat(show(s, 3000), " for ", show(w, 1500), " next to ", show(v, 1500));
		describe(what);
		bool got = judge(SchemaValidate(to_variant(s), to_variant(w)), what);
		VH_CHECK(got == !want, want ? "accepted" : "refused", what);
		count(want ? "next-invalid" : "next-valid");
		++found;
	}
}

static void verdict(Ctx &c) {
	Rng &r = c.rng;
	MV s, v;
	if (!pair(r, s, v)) { count("skipped"); return; }
	std::string what = cat(show(s, 3000), " for ", show(v, 1500));
	describe(what);
	Refs none;
	refs = &none;
	bool want = valid(s, v);
	Variant vs = to_variant(s), vv = to_variant(v);
	for (int round = 0; round < 2; ++round) {
		SchemaLoader loader;
		bool got = judge(round ? SchemaValidate(vs, vv, &loader) : SchemaValidate(vs, vv), what);
		VH_CHECK(got == want, want ? "refused" : "accepted", round ? "second time " : "", what);
		VH_CHECK(diff(v, from_variant(vv)).empty(), "document-changed", what);
		VH_CHECK(diff(s, from_variant(vs)).empty(), "schema-changed", diff(s, from_variant(vs)), " | ", what);
	}
	count(want ? "valid" : "invalid");
	nontrivial(hash(what));
	sample(printable(what, 400));
	neighbours(r, s, v, want);
}

// ---- references ------------------------------------------------------------

static std::string pointer_escape(const std::string &k) {
	std::string o;
	for (size_t i = 0; i < k.size(); ++i) { if (k[i] == '~') o += "~0"; else if (k[i] == '/') o += "~1"; else o += k[i]; }
	return o;
}
static std::string uri_escape(Rng &r, const std::string &k) {
	static const char *hex[] = { "0123456789abcdef", "0123456789ABCDEF" };
	std::string o;
	for (size_t i = 0; i < k.size(); ++i) {
		unsigned char ch = k[i];
		bool plain = isalnum(ch) || strchr("-._~/", ch);
		if (plain && !r.chance(1, 12)) { o += k[i]; continue; }
		const char *h = hex[r.below(2)];
		o += '%'; o += h[ch >> 4]; o += h[ch & 15];
	}
	return o;
}
static const char *DEF_KEYS[] = { "d", "a/b", "m~n", "~1", "~01", "per%cent", "with space", "q\"uote", "\xc3\xa9", "%41", "0", "a#b", "x?y" };

struct World {
	MV root;                        // the main schema
	std::map<std::string, MV> docs;     // other documents by address
	Refs meaning;
	bool external;
	std::set<std::string> linked;   // documents with local references of their own
};
// move subschemas out of s
static void extract(Rng &r, World &w, MV &s, MV &defs, const std::string &at, int &budget, int level = 0) {
	static const char *one[] = { "not", "items", "additionalItems", "additionalProperties" };
	static const char *many[] = { "allOf", "anyOf", "oneOf", "items" };
	static const char *maps[] = { "properties", "patternProperties", "dependencies" };
	std::vector<MV *> subs;
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(one[i]); if (j != s.m.end() && j->second.k == K_MAP) subs.push_back(&j->second); }
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(many[i]); if (j != s.m.end() && j->second.k == K_LIST) for (size_t k = 0; k < j->second.l.size(); ++k) subs.push_back(&j->second.l[k]); }
	for (int i = 0; i < 3; ++i) { std::map<std::string, MV>::iterator j = s.m.find(maps[i]); if (j != s.m.end()) for (std::map<std::string, MV>::iterator k = j->second.m.begin(); k != j->second.m.end(); ++k) if (k->second.k == K_MAP) subs.push_back(&k->second); }
	for (size_t i = 0; i < subs.size(); ++i) extract(r, w, *subs[i], defs, at, budget, level + 1);
	for (size_t i = 0; i < subs.size() && budget > 0; ++i) {
		if (r.chance(1, 2)) continue;
		--budget;
		MV body = *subs[i], ref = MV::Map();
		std::string target;
		if (w.external && r.coin()) {
			std::string doc = cat("http://example.com/s/doc", w.docs.size());
			if (r.coin()) { w.docs[doc] = body; target = doc; if (r.coin()) target += "#"; }
			else if (r.coin()) {
				// the document is a reference beside its definitions
				MV d = MV::Map(), in = MV::Map(), link = MV::Map();
				link.m["$ref"] = MV::Str("#/definitions/body");
				in.m["body"] = body;
				in.m["link"] = link;
				d.m["definitions"] = in;
				d.m["$ref"] = MV::Str("#/definitions/link");
				w.docs[doc] = d;
				w.linked.insert(doc);
				target = doc;
				count("reference-beside-definitions");
			}
			else {
				std::string k = cat(DEF_KEYS[r.below(13)], w.docs.size());
				MV d = MV::Map(), in = MV::Map();
				in.m[k] = body;
				d.m["definitions"] = in;
				w.docs[doc] = d;
				target = doc + "#/definitions/" + uri_escape(r, pointer_escape(k));
			}
			count("external-reference");
		} else {
			std::string k = cat(DEF_KEYS[r.below(13)], defs.m.size());
			defs.m[k] = body;
			// from another document the root is named
			target = "#/definitions/" + uri_escape(r, pointer_escape(k));
			count("local-reference");
		}
		w.meaning[target] = body;
		ref.m["$ref"] = MV::Str(target);
		*subs[i] = ref;
	}
}
static bool has_local(const MV &s) {
	const MV *k = get(s, "$ref");
	if (k && k->k == K_STR && k->s[0] == '#') return true;
	for (size_t i = 0; i < s.l.size(); ++i) if (has_local(s.l[i])) return true;
	for (std::map<std::string, MV>::const_iterator i = s.m.begin(); i != s.m.end(); ++i) if (has_local(i->second)) return true;
	return false;
}
// a document of its own that names parts of the main one
static bool strays(const World &w, const std::string &at, const MV &d) {
	if (!w.linked.count(at)) return has_local(d);
	const MV *defs = get(d, "definitions");
	return has_local(*get(*defs, "body"));
}
static bool has_ref(const MV &s) {
	const MV *k = get(s, "$ref");
	if (k && k->k == K_STR) return true;
	for (size_t i = 0; i < s.l.size(); ++i) if (has_ref(s.l[i])) return true;
	for (std::map<std::string, MV>::const_iterator i = s.m.begin(); i != s.m.end(); ++i) if (has_ref(i->second)) return true;
	return false;
}
struct Missing { std::map<std::string, MV> *docs; std::map<std::string, int> asked; };
static bool missing(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &e, void *ctx) {
	Missing *m = (Missing *)ctx;
	m->asked[uri]++;
	std::map<std::string, MV>::iterator i = m->docs->find(uri);
	if (i == m->docs->end()) { e.AddError(uri, "not here"); return false; }
	l->AddSchema(uri, to_variant(i->second));
	return true;
}

static void references(Ctx &c) {
	Rng &r = c.rng;
	MV s, v;
	if (!pair(r, s, v)) { count("skipped"); return; }
	World w;
	w.external = r.coin();
	Refs none;
	refs = &none;
	bool want = valid(s, v);
	MV t = s, defs = MV::Map();
	int budget = r.range(1, 6);
	extract(r, w, t, defs, "", budget);
	// a document of its own cannot name parts of the main one by a local reference
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) if (strays(w, i->first, i->second)) { count("skipped"); return; }
	if (!defs.m.empty()) t.m["definitions"] = defs;
	refs = &w.meaning;
	if (valid(t, v) != want) harness_error("model of references");
	std::string what = cat(show(t, 3000), " for ", show(v, 1000));
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) what += cat(" with ", i->first, " ", show(i->second, 800));
	describe(what);
	if (w.meaning.empty()) { count("no-reference"); return; }
	Variant vs = to_variant(t), vv = to_variant(v);
	int how = w.docs.empty() ? r.below(2) : 2 + r.below(2);
	for (int round = 0; round < 2; ++round) {
		SchemaLoader loader;
		Missing m;
		m.docs = &w.docs;
		Variant use = vs;
		if (how == 1) { loader.AddSchema("http://example.com/main", to_variant(t)); use = "http://example.com/main"; count("by-address"); }
		if (how == 2) for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) loader.AddSchema(i->first, to_variant(i->second));
		if (how == 3) { loader.SetMissingHandler(missing, &m); count("by-callback"); }
		bool got;
		try { got = judge(how == 0 && round ? SchemaValidate(use, vv) : SchemaValidate(use, vv, &loader), what); }
		catch (const Fail &) { throw; }
		catch (const std::exception &e) { throw Fail("reference-raised", cat(e.what(), " | ", what)); }
		VH_CHECK(got == want, want ? "reference-refused" : "reference-accepted", round ? "second time " : "", "how ", how, " ", what);
		for (std::map<std::string, int>::iterator i = m.asked.begin(); i != m.asked.end(); ++i) VH_CHECK(i->second == 1, "asked-again", i->first, " ", i->second, " times");
		VH_CHECK(diff(v, from_variant(vv)).empty(), "document-changed", what);
		VH_CHECK(diff(t, from_variant(vs)).empty(), "schema-changed", diff(t, from_variant(vs)), " | ", what);
	}
	count(want ? "valid" : "invalid");
	nontrivial(hash(what));
	sample(printable(what, 500));
}

// trees described by a schema that contains itself
static MV gen_tree(Rng &r, int level, bool &ok) {
	MV m = MV::Map();
	m.m["value"] = MV::Int(r.range(0, 5));
	if (r.chance(1, 25)) { m.m["value"] = r.coin() ? MV::Str("x") : MV::Int(-1); ok = false; }
	if (r.chance(1, 40)) { m.m.erase("value"); ok = false; }
	if (level < 8 && r.coin()) {
		MV l = MV::List();
		for (int n = r.below(3); n > 0; --n) l.l.push_back(gen_tree(r, level + 1, ok));
		m.m["children"] = l;
	}
	return m;
}
static void recursive(Ctx &c) {
	Rng &r = c.rng;
	bool ok = true;
	MV doc = gen_tree(r, 0, ok);
	static const char *root = "{\"type\":\"object\",\"required\":[\"value\"],\"properties\":{\"value\":{\"type\":\"integer\",\"minimum\":0},\"children\":{\"type\":\"array\",\"items\":{\"$ref\":\"#\"}}}}";
	static const char *defs = "{\"$ref\":\"#/definitions/node\",\"definitions\":{\"node\":{\"type\":\"object\",\"required\":[\"value\"],\"properties\":{\"value\":{\"$ref\":\"#/definitions/count\"},\"children\":{\"$ref\":\"#/definitions/nodes\"}}},"
		"\"nodes\":{\"type\":\"array\",\"items\":{\"$ref\":\"#/definitions/node\"}},\"count\":{\"type\":\"integer\",\"minimum\":0}}}";
	Variant s = DeserializeJSON(r.coin() ? root : defs);
	std::string what = cat(SerializeJSON(s), " for ", show(doc, 3000));
	describe(what);
	bool got;
	if (r.coin()) got = judge(SchemaValidate(s, to_variant(doc)), what);
	else {
		SchemaLoader l;
		l.AddSchema("http://example.com/tree", s);
		got = judge(SchemaValidate("http://example.com/tree", to_variant(doc), &l), what);
	}
	VH_CHECK(got == ok, ok ? "recursive-refused" : "recursive-accepted", what);
	count(ok ? "recursive-valid" : "recursive-invalid");
	nontrivial(hash(what));
}

// references that lead nowhere
static void broken(Ctx &c) {
	Rng &r = c.rng;
	static const char *nowhere[] = { "#/definitions/none", "#/nothing", "http://example.com/none", "http://example.com/none#/a", "#/definitions/here/none", "none.json", "#/definitions/list/7", "#/definitions/list/x", "#/definitions/text" };
	MV bad = MV::Map();
	MV defs = MV::Map();
	defs.m["here"] = MV::Map();
	MV l = MV::List();
	l.l.push_back(MV::Map());
	defs.m["list"] = l;
	defs.m["text"] = MV::Str("a string");
	bool loop = r.coin();
	if (loop) {
		int n = r.range(1, 4);
		for (int i = 0; i < n; ++i) {
			MV ref = MV::Map(), link = MV::Map();
			ref.m["$ref"] = MV::Str(cat("#/definitions/loop", (i + 1) % n));
			if (r.chance(1, 3)) { MV all = MV::List(); all.l.push_back(ref); link.m[r.coin() ? "allOf" : r.coin() ? "anyOf" : "oneOf"] = all; }
			else link = ref;
			defs.m[cat("loop", i)] = link;
		}
		bad.m["$ref"] = MV::Str("#/definitions/loop0");
	} else bad.m["$ref"] = MV::Str(nowhere[r.below(9)]);
	// placed so that the verdict depends on it
	MV s = bad, doc = MV::Int(1);
	for (int n = r.below(4); n > 0; --n) {
		MV up = MV::Map();
		switch (r.below(6)) {
		case 0: { up.m["properties"] = MV::Map(); up.m["properties"].m["p"] = s; MV d = MV::Map(); d.m["p"] = doc; doc = d; break; }
		case 1: { up.m["items"] = s; MV d = MV::List(); d.l.push_back(doc); doc = d; break; }
		case 2: up.m["not"] = s; break;
		default: { static const char *k[] = { "allOf", "anyOf", "oneOf" }; MV li = MV::List(); li.l.push_back(s); up.m[k[r.below(3)]] = li; }
		}
		s = up;
	}
	if (s.m.count("$ref")) { MV li = MV::List(), up = MV::Map(); li.l.push_back(s); up.m["allOf"] = li; s = up; }
	s.m["definitions"] = defs;
	std::string what = cat(show(s, 3000), " for ", show(doc, 500));
	describe(what);
	bool raised = false;
	SchemaResult res;
	try {
		SchemaLoader loader;
		res = SchemaValidate(to_variant(s), to_variant(doc), &loader);
	} catch (const std::exception &) { raised = true; }
	VH_CHECK(raised || res.Error(), loop ? "loop-accepted" : "nowhere-accepted", what);
	count(loop ? "loop" : "nowhere");
	nontrivial(hash(what));
}

// ---- addresses (RFC 3986, section 5.2) ---------------------------------------

struct Uri { std::string scheme, auth, path, query, frag; bool s, a, q, f; };
static Uri parse(const std::string &t) {
	static const std::regex re("^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\\?([^#]*))?(#(.*))?$");
	std::smatch m;
	if (!std::regex_match(t, m, re)) harness_error("uri");
	Uri u;
	u.s = m[1].matched; u.scheme = m[2]; u.a = m[3].matched; u.auth = m[4]; u.path = m[5]; u.q = m[6].matched; u.query = m[7]; u.f = m[8].matched; u.frag = m[9];
	return u;
}
static std::string dots(std::string in) {
	std::string out;
	while (!in.empty()) {
		if (in.compare(0, 3, "../") == 0) in.erase(0, 3);
		else if (in.compare(0, 2, "./") == 0) in.erase(0, 2);
		else if (in.compare(0, 3, "/./") == 0) in.erase(0, 2);
		else if (in == "/.") in = "/";
		else if (in.compare(0, 4, "/../") == 0 || in == "/..") {
			in = in == "/.." ? "/" : in.substr(3);
			size_t p = out.rfind('/');
			out.erase(p == std::string::npos ? 0 : p);
		} else if (in == "." || in == "..") in.clear();
		else {
			size_t p = in.find('/', 1);
			out += in.substr(0, p);
			in.erase(0, p == std::string::npos ? in.size() : p);
		}
	}
	return out;
}
static std::string resolve(const std::string &base, const std::string &ref) {
	Uri b = parse(base), r = parse(ref), t = r;
	if (!r.s) {
		if (!r.a) {
			if (r.path.empty()) { t.path = b.path; if (!r.q) { t.q = b.q; t.query = b.query; } }
			else if (r.path[0] == '/') t.path = dots(r.path);
			else if (b.a && b.path.empty()) t.path = dots("/" + r.path);
			else t.path = dots(b.path.substr(0, b.path.rfind('/') + 1) + r.path);
			t.a = b.a; t.auth = b.auth;
		} else t.path = dots(r.path);
		t.s = b.s; t.scheme = b.scheme;
	} else t.path = dots(r.path);
	return cat(t.s ? t.scheme + ":" : "", t.a ? "//" + t.auth : "", t.path, t.q ? "?" + t.query : "", t.f ? "#" + t.frag : "");
}
static std::string segments(Rng &r, bool dotty) {
	static const char *seg[] = { "a", "b", "c", "g", "x.json", "..g", "g..", ".g", "g.", "...", "d;p", "y=1" };
	std::string o;
	for (int n = r.range(0, 4); n > 0; --n) {
		o += dotty && r.chance(1, 3) ? (r.coin() ? ".." : ".") : seg[r.below(12)];
		if (n > 1 || r.coin()) o += "/";
	}
	return o;
}
static void address(Ctx &c) {
	Rng &r = c.rng;
	static const char *hosts[] = { "example.com", "a", "h.org:8080", "u@h" };
	std::string base = cat(r.coin() ? "http://" : "ftp://", hosts[r.below(4)]);
	if (r.chance(5, 6)) base += "/" + segments(r, false);
	if (r.chance(1, 4)) base += "?q=1";
	std::string ref;
	int kind = r.below(8);
	if (kind == 0) ref = cat("http://", hosts[r.below(4)], "/", segments(r, true));
	else if (kind == 1) ref = cat("//", hosts[r.below(4)], "/", segments(r, true));
	else if (kind == 2) ref = "/" + segments(r, true);
	else if (kind < 7) ref = segments(r, true);
	if (r.chance(1, 4)) ref += "?z=2";
	if (r.chance(1, 4)) ref += "#frag";
	// the library keeps ".." above the root on purpose
	Uri bu = parse(base), ru = parse(ref);
	std::string path = ru.s || ru.a || ru.path[0] == '/' ? ru.path : bu.path.substr(0, bu.path.rfind('/') + 1) + ru.path;
	int level = 0;
	std::istringstream parts(path);
	for (std::string p; std::getline(parts, p, '/');) {
		if (p == "..") --level; else if (!p.empty() && p != ".") ++level;
		if (level < 0) { count("above-root"); return; }
	}
	describe(cat(base, " and ", ref));
	std::string got = SchemaLoader::ResolveURI(base, ref), want = resolve(base, ref);
	VH_CHECK(got == want, "address", base, " and ", ref, " gave ", got, " expected ", want);
	count("address");
	nontrivial(hash(base + " " + ref));
}

// ---- identifiers, loaders and histories ------------------------------------

static void children(MV &s, std::vector<MV *> &subs) {
	static const char *one[] = { "not", "items", "additionalItems", "additionalProperties" };
	static const char *many[] = { "allOf", "anyOf", "oneOf", "items" };
	static const char *maps[] = { "properties", "patternProperties", "dependencies", "definitions" };
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(one[i]); if (j != s.m.end() && j->second.k == K_MAP) subs.push_back(&j->second); }
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(many[i]); if (j != s.m.end() && j->second.k == K_LIST) for (size_t k = 0; k < j->second.l.size(); ++k) subs.push_back(&j->second.l[k]); }
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(maps[i]); if (j != s.m.end()) for (std::map<std::string, MV>::iterator k = j->second.m.begin(); k != j->second.m.end(); ++k) if (k->second.k == K_MAP) subs.push_back(&k->second); }
}
static const std::string HOST = "http://example.com/s/";
struct Spelling {
	std::string id;                      // of the root: absolute, relative or none
	std::map<std::string, std::string> named;    // local reference by its name
	bool inner;                          // may put references under another base
};
static std::string own(const std::string &id) { return id.substr(0, id.find('#')); }
static void respell(Rng &r, World &w, MV &s, const Spelling &sp, bool root) {
	std::vector<MV *> subs;
	children(s, subs);
	for (size_t i = 0; i < subs.size(); ++i) respell(r, w, *subs[i], sp, root);
	std::map<std::string, MV>::iterator at = s.m.find("$ref");
	if (at == s.m.end() || at->second.k != K_STR || (!root && at->second.s[0] == '#')) return;
	std::string was = at->second.s, now = was, id = own(sp.id);
	bool absolute = id.compare(0, 7, "http://") == 0;
	MV means = w.meaning[was];
	std::string local = was;
	if (sp.named.count(was)) { local = sp.named.find(was)->second; count("by-name"); }
	bool under = root && sp.inner && (was[0] != '#' || absolute) && s.m.size() == 1 && r.chance(1, 4);
	if (was[0] == '#') {
		now = local;
		if (under) now = "../s/main" + local;
		else if (absolute) { static const char *p[] = { "", "", "main", "/s/main", "../s/main" }; int k = r.below(6); now = k == 5 ? id + local : p[k] + local; }
		else if (!id.empty() && r.coin()) now = id + local;
	} else if (under) now = "../s/" + was.substr(HOST.size());
	else if (absolute || !root) { static const char *p[] = { "", "/s/", "./", "../s/", "//example.com/s/" }; int k = r.below(6); if (k < 5) now = p[k] + was.substr(HOST.size()); }
	w.meaning[now] = means;
	at->second = MV::Str(now);
	if (under) {
		MV up = MV::Map(), l = MV::List();
		l.l.push_back(s);
		up.m["allOf"] = l;
		up.m["id"] = MV::Str(!absolute || r.coin() ? "http://example.com/t/inner" : "../t/");
		s = up;
		count("inner-base");
	}
	count("respelled");
}
// what a local reference leads to
static MV *definition(MV &defs, const std::string &ref) {
	for (std::map<std::string, MV>::iterator i = defs.m.begin(); i != defs.m.end(); ++i) {
		std::string p = pointer_escape(i->first), want = ref.substr(strlen("#/definitions/")), got;
		for (size_t k = 0; k < want.size(); ++k) if (want[k] == '%') { got += (char)strtol(want.substr(k + 1, 2).c_str(), 0, 16); k += 2; } else got += want[k];
		if (got == p) return &i->second;
	}
	return 0;
}
static bool split_pair(Rng &r, World &w, MV &t, MV &defs, MV &v, bool &want) {
	MV s;
	if (!pair(r, s, v)) return false;
	Refs none;
	refs = &none;
	want = valid(s, v);
	t = s;
	defs = MV::Map();
	int budget = r.range(1, 6);
	extract(r, w, t, defs, "", budget);
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) if (strays(w, i->first, i->second)) return false;
	return !w.meaning.empty();
}
static std::string whole(const MV &t, const MV &v, const World &w) {
	std::string what = cat(show(t, 3000), " for ", show(v, 1000));
	for (std::map<std::string, MV>::const_iterator i = w.docs.begin(); i != w.docs.end(); ++i) what += cat(" with ", i->first, " ", show(i->second, 800));
	return what;
}
static int attempt(const Variant &s, const Variant &v, SchemaLoader *l, const std::string &what) {
	try {
		SchemaResult res = SchemaValidate(s, v, l);
		if (res.SchemaErrors()) return -1;
		return judge(res, what);
	} catch (const Fail &) { throw; }
	catch (const std::exception &) { return -1; }
}
static void identified(Ctx &c) {
	Rng &r = c.rng;
	World w;
	w.external = r.coin();
	MV t, v, defs;
	bool want;
	if (!split_pair(r, w, t, defs, v, want)) { count("skipped"); return; }
	Spelling sp;
	int idkind = r.below(4);
	if (idkind == 1) sp.id = HOST + "main";
	if (idkind == 2) sp.id = HOST + "main#";
	if (idkind == 3) sp.id = w.docs.empty() ? "main.json" : "";
	sp.inner = r.coin();
	// some definitions get names
	std::vector<std::string> locals;
	for (Refs::iterator i = w.meaning.begin(); i != w.meaning.end(); ++i) if (i->first[0] == '#') locals.push_back(i->first);
	for (size_t i = 0; i < locals.size(); ++i) if (r.coin()) {
		MV *d = definition(defs, locals[i]);
		if (!d) harness_error("definition");
		std::string n = cat("#name", i);
		d->m["id"] = MV::Str(n);
		sp.named[locals[i]] = n;
		if (r.chance(1, 3)) {
			MV up = MV::Map(), l = MV::List();
			l.l.push_back(*d);
			up.m["anyOf"] = l;
			*d = up;
			count("named-in-list");
		} else if (r.chance(1, 3)) {
			// below something that is only called like a keyword
			static const char *k[] = { "enum", "default", "enum", "id", "$ref" };
			MV up = MV::Map(), l = MV::Map();
			l.m[k[r.below(5)]] = *d;
			up.m[r.coin() ? "definitions" : "properties"] = l;
			*d = up;
			count("named-below-keyword");
		}
		if (r.chance(1, 3)) {
			// a value that looks like the schema of that name
			MV decoy = MV::Map();
			decoy.m["id"] = MV::Str(n);
			if (r.coin()) decoy.m["not"] = MV::Map();
			if (r.coin()) { MV dead = MV::Map(), l = MV::List(); l.l.push_back(decoy); dead.m["enum"] = l; defs.m["0dead"] = dead; }
			else t.m["default"] = decoy;
			count("named-decoy");
		}
	}
	if (!defs.m.empty()) t.m["definitions"] = defs;
	respell(r, w, t, sp, true);
	if (!sp.id.empty()) t.m["id"] = MV::Str(sp.id);
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) respell(r, w, i->second, sp, false);
	refs = &w.meaning;
	std::string what = whole(t, v, w);
	describe(what);
	if (valid(t, v) != want) harness_error("model of identified references");
	Variant vs = to_variant(t), vv = to_variant(v);
	std::map<std::string, Variant> docs;
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) docs[i->first] = to_variant(i->second);
	SchemaLoader below, above(&below);
	bool chain = r.coin();
	SchemaLoader &use = chain ? above : below;
	std::map<std::string, SchemaLoader *> where;
	for (std::map<std::string, Variant>::iterator i = docs.begin(); i != docs.end(); ++i) {
		// a document in the lower loader cannot reach the upper one
		where[i->first] = chain && !has_ref(w.docs[i->first]) && r.coin() ? &below : &use;
		where[i->first]->AddSchema(i->first, i->second);
	}
	if (chain) count("chain");
	// registering it elsewhere first makes no difference
	bool elsewhere = r.chance(1, 4);
	if (elsewhere) { SchemaLoader other; for (std::map<std::string, Variant>::iterator i = docs.begin(); i != docs.end(); ++i) other.AddSchema("http://other.org/x/" + i->first.substr(HOST.size()), i->second); other.AddSchema("http://other.org/y", vs); }
	bool by_address = idkind != 3 && r.chance(1, 3);
	if (by_address) use.AddSchema(HOST + "main", vs);
	Variant schema = by_address ? Variant(HOST + "main") : vs;
	Variant data = vv;
	bool expect = want;
	if (by_address && v.k == K_MAP && r.coin()) {
		MV v2 = v;
		v2.m["$schema"] = MV::Str(HOST + "main");
		expect = valid(t, v2);
		data = to_variant(v2);
		schema = Variant();
		count("named-by-data");
	}
	for (int n = r.range(1, 4); n > 0; --n) {
		if (!docs.empty() && r.chance(1, 3)) {
			std::map<std::string, Variant>::iterator i = docs.begin();
			std::advance(i, r.below(docs.size()));
			where[i->first]->ForgetSchema(i->first);
			int got = attempt(schema, data, &use, what);
			VH_CHECK(got == -1 || got == expect, "forgotten", i->first, " ", what);
			count(got == -1 ? "forgotten-missed" : "forgotten-unused");
			where[i->first]->AddSchema(i->first, i->second);
		}
		int got = attempt(schema, data, &use, what);
		VH_CHECK(got != -1, "identified-raised", "id ", idkind, " address ", by_address, " chain ", chain, " elsewhere ", elsewhere, " ", what);
		VH_CHECK(got == expect, expect ? "identified-refused" : "identified-accepted", "id ", idkind, " address ", by_address, " ", what);
		VH_CHECK(diff(t, from_variant(vs)).empty(), "schema-changed", diff(t, from_variant(vs)), " | ", what);
		for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) VH_CHECK(diff(i->second, from_variant(docs[i->first])).empty(), "registered-schema-changed", what);
	}
	count(want ? "identified-valid" : "identified-invalid");
	if (!sp.id.empty()) count("with-id");
	nontrivial(hash(what));
}

// ---- schemas from files and servers -------------------------------------------

struct Server {
	int fd, port;
	std::mutex lock;
	std::map<std::string, std::string> pages;
	std::map<std::string, int> asked;
	static void serve(Server *s) {
		for (;;) {
			int c = accept(s->fd, 0, 0);
			if (c < 0) return;
			std::string q;
			char b[2000];
			while (q.find("\r\n\r\n") == std::string::npos) { ssize_t n = read(c, b, sizeof b); if (n <= 0) break; q.append(b, n); }
			size_t a = q.find(' '), e = q.find(' ', a + 1);
			std::string path = a == std::string::npos || e == std::string::npos ? "" : q.substr(a + 1, e - a - 1), out;
			{
				std::lock_guard<std::mutex> g(s->lock);
				s->asked[path]++;
				if (s->pages.count(path)) { const std::string &p = s->pages[path]; out = cat("HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: ", p.size(), "\r\n\r\n", p); }
				else if (path.find("cut") != std::string::npos) out = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 500\r\n\r\n{}";
				else if (path.find("empty") != std::string::npos) out = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 0\r\n\r\n";
				else if (path.find("junk") != std::string::npos) out = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: 5\r\n\r\n{\"a\":";
				else out = "HTTP/1.1 404 Not Found\r\nConnection: close\r\nContent-Length: 20\r\n\r\n{\"error\": \"missing\"}";
			}
			for (size_t i = 0; i < out.size();) { ssize_t n = send(c, out.data() + i, out.size() - i, MSG_NOSIGNAL); if (n <= 0) break; i += n; }
			close(c);
		}
	}
	Server() : fd(socket(AF_INET, SOCK_STREAM, 0)), port(0) {
		setenv("no_proxy", "*", 1);
		sockaddr_in a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t l = sizeof a;
		if (fd < 0 || bind(fd, (sockaddr *)&a, sizeof a) || listen(fd, 50) || getsockname(fd, (sockaddr *)&a, &l)) return;
		port = ntohs(a.sin_port);
		std::thread(serve, this).detach();
	}
};
static Server &server() { static Server *s = new Server; return *s; }
static void swap_host(MV &s, const std::string &to) {
	std::vector<MV *> subs;
	children(s, subs);
	for (size_t i = 0; i < subs.size(); ++i) swap_host(*subs[i], to);
	std::map<std::string, MV>::iterator at = s.m.find("$ref");
	if (at != s.m.end() && at->second.k == K_STR && at->second.s.compare(0, HOST.size(), HOST) == 0) at->second.s = to + at->second.s.substr(HOST.size());
}
static void fetched(Ctx &c) {
	Rng &r = c.rng;
	World w;
	w.external = true;
	MV t, v, defs;
	bool want;
	if (!split_pair(r, w, t, defs, v, want) || w.docs.empty()) { count("skipped"); return; }
	if (!defs.m.empty()) t.m["definitions"] = defs;
	std::string dir = scratch(), host;
	int kind = r.below(4);
	if (kind == 3 && !server().port) kind = 0;
	static const char *names[] = { "file-address", "file-path", "file-search", "server" };
	switch (kind) {
	case 0: host = "file://" + dir + "/"; break;
	case 1: host = dir + "/"; break;
	case 2: host = ""; break;
	default: host = cat("http://127.0.0.1:", server().port, "/s/");
	}
	swap_host(t, host);
	std::string what = cat(names[kind], " ", whole(t, v, w));
	describe(what);
	if (kind == 3) { std::lock_guard<std::mutex> g(server().lock); server().pages.clear(); server().asked.clear(); }
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) {
		MV d = i->second;
		swap_host(d, host);
		std::string text = SerializeJSON(to_variant(d)), n = i->first.substr(HOST.size());
		if (kind == 3) { std::lock_guard<std::mutex> g(server().lock); server().pages["/s/" + n] = text; }
		else { std::ofstream f((dir + "/" + n).c_str()); f << text; f.close(); if (!f) harness_error("scratch file"); }
	}
	AdvSchemaLoader loader;
	if (kind == 2) { loader.AddPath(dir + "/nowhere"); loader.AddPath(dir); }
	int got[3];
	for (int i = 0; i < 2; ++i) got[i] = attempt(to_variant(t), to_variant(v), &loader, what);
	if (kind == 3) {
		std::lock_guard<std::mutex> g(server().lock);
		for (std::map<std::string, int>::iterator i = server().asked.begin(); i != server().asked.end(); ++i) VH_CHECK(i->second == 1, "fetched-again", i->first, " ", i->second, " times ", what);
	}
	// a document that is not there
	MV bad = MV::Map(), all = MV::List(), ref = MV::Map();
	static const char *missing[] = { "missing", "missing#/a", "cut", "empty", "junk", "junk#/a", "cut#/a" };
	std::string miss = missing[r.below(kind == 3 ? 7 : 2)];
	ref.m["$ref"] = MV::Str(host + miss);
	all.l.push_back(ref);
	bad.m["allOf"] = all;
	got[2] = attempt(to_variant(bad), to_variant(v), &loader, what);
	if (kind != 3) for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) unlink((dir + "/" + i->first.substr(HOST.size())).c_str());
	for (int i = 0; i < 2; ++i) {
		VH_CHECK(got[i] != -1, "fetched-raised", what);
		VH_CHECK(got[i] == want, want ? "fetched-refused" : "fetched-accepted", what);
	}
	VH_CHECK(got[2] == -1, "fetched-nothing", names[kind], " ", miss, " gave ", got[2] ? "valid" : "invalid");
	count(names[kind]);
	count("fetched-nothing");
	nontrivial(hash(what));
}

// ---- where errors point (V33) ----------------------------------------------

typedef libvariant::Path Where;
static bool key_at(const Where &p, size_t i, const std::string &k) { return i < p.size() && p[i].IsString() && p[i].AsString() == k; }
static bool index_at(const Where &p, size_t i, size_t n) { return i < p.size() && p[i].IsNumber() && p[i].AsUnsigned() < n; }
static bool matches(const MV &s, const std::string &k) {
	const MV *props = get(s, "properties"), *pats = get(s, "patternProperties");
	if (props && get(*props, k.c_str())) return true;
	if (pats) for (std::map<std::string, MV>::const_iterator j = pats->m.begin(); j != pats->m.end(); ++j) if (std::regex_search(k, regex(j->first))) return true;
	return false;
}
// Does the keyword at the schema path really refuse the value at the data path?
// The two paths are followed together; a reference takes no step of its own.
static bool explains(const MV &s, const MV &v, const Where &d, size_t di, const Where &p, size_t pi, bool &choice) {
	const MV *k = get(s, "$ref");
	if (k && k->k == K_STR) {
		Refs::const_iterator i = refs->find(k->s);
		if (i == refs->end()) harness_error(cat("no meaning for ", k->s));
		count("place-behind-reference");
		return explains(i->second, v, d, di, p, pi, choice);
	}
	if (pi >= p.size() || !p[pi].IsString()) return false;
	std::string w = p[pi].AsString();
	if (!(k = get(s, w.c_str()))) return false;
	if (w == "properties" || w == "patternProperties") {
		if (v.k != K_MAP || pi + 1 >= p.size() || !p[pi + 1].IsString() || di >= d.size() || !d[di].IsString()) return false;
		std::string name = p[pi + 1].AsString(), at = d[di].AsString();
		if (w == "properties" ? name != at : !std::regex_search(at, regex(name))) return false;
		const MV *sub = get(*k, name.c_str()), *in = get(v, at.c_str());
		return sub && in && explains(*sub, *in, d, di + 1, p, pi + 2, choice);
	}
	if (w == "additionalProperties") {
		if (v.k != K_MAP || di >= d.size() || !d[di].IsString()) return false;
		const MV *in = get(v, d[di].AsString().c_str());
		if (!in || matches(s, d[di].AsString())) return false;
		if (k->k == K_BOOL) return !k->b && di + 1 == d.size() && pi + 1 == p.size();
		return explains(*k, *in, d, di + 1, p, pi + 1, choice);
	}
	if (w == "items" && k->k == K_MAP)
		return v.k == K_LIST && index_at(d, di, v.l.size()) && explains(*k, v.l[d[di].AsUnsigned()], d, di + 1, p, pi + 1, choice);
	if (w == "items")
		return v.k == K_LIST && index_at(d, di, v.l.size()) && index_at(p, pi + 1, k->l.size()) && d[di].AsUnsigned() == p[pi + 1].AsUnsigned()
			&& explains(k->l[p[pi + 1].AsUnsigned()], v.l[d[di].AsUnsigned()], d, di + 1, p, pi + 2, choice);
	if (w == "additionalItems") {
		const MV *items = get(s, "items");
		if (v.k != K_LIST || !index_at(d, di, v.l.size()) || !items || items->k != K_LIST || d[di].AsUnsigned() < items->l.size()) return false;
		if (k->k == K_BOOL) return !k->b && di + 1 == d.size() && pi + 1 == p.size();
		return explains(*k, v.l[d[di].AsUnsigned()], d, di + 1, p, pi + 1, choice);
	}
	if ((w == "allOf" || w == "anyOf" || w == "oneOf") && pi + 1 < p.size())
		return index_at(p, pi + 1, k->l.size()) && explains(k->l[p[pi + 1].AsUnsigned()], v, d, di, p, pi + 2, choice);
	if (w == "dependencies") {
		if (v.k != K_MAP || pi + 1 >= p.size() || !p[pi + 1].IsString()) return false;
		const MV *sub = get(*k, p[pi + 1].AsString().c_str());
		if (!sub || !get(v, p[pi + 1].AsString().c_str())) return false;
		if (sub->k == K_MAP) return explains(*sub, v, d, di, p, pi + 2, choice);
		return di == d.size() && pi + 3 == p.size() && index_at(p, pi + 2, sub->l.size()) && !v.m.count(sub->l[p[pi + 2].AsUnsigned()].s);
	}
	if (di != d.size()) return false;
	if (w == "required") return v.k == K_MAP && pi + 2 == p.size() && index_at(p, pi + 1, k->l.size()) && !v.m.count(k->l[p[pi + 1].AsUnsigned()].s);
	if (pi + 1 != p.size()) return false;
	MV only = MV::Map();
	only.m[w] = *k;
	if (w == "exclusiveMinimum" || w == "exclusiveMaximum") { std::string b = w == "exclusiveMinimum" ? "minimum" : "maximum"; if (get(s, b.c_str())) only.m[b] = *get(s, b.c_str()); }
	choice = w == "anyOf" || w == "oneOf";
	return !valid(only, v);
}
// the list of alternatives at a schema path
static const MV *alternatives(const MV &s, const Where &p, size_t pi) {
	const MV *at = &s, *k;
	while ((k = get(*at, "$ref")) && k->k == K_STR) at = &refs->find(k->s)->second;
	if (pi >= p.size()) return at;
	// keys and indices in turn; below a keyword that holds a list or a map of schemas one step more
	if (p[pi].IsNumber()) return 0;
	k = get(*at, p[pi].AsString().c_str());
	std::string w = p[pi].AsString();
	if (!k) return 0;
	if (pi + 1 == p.size()) return k;
	if (k->k == K_LIST) return index_at(p, pi + 1, k->l.size()) ? alternatives(k->l[p[pi + 1].AsUnsigned()], p, pi + 2) : 0;
	if (w == "properties" || w == "patternProperties" || w == "dependencies") {
		if (!p[pi + 1].IsString()) return 0;
		k = get(*k, p[pi + 1].AsString().c_str());
		return k ? alternatives(*k, p, pi + 2) : 0;
	}
	return alternatives(*k, p, pi + 1);
}
static void places(const MV &s, const MV &v, const Variant &vv, const SchemaResult &res, const Where *below, const std::string &what, int level = 0, const std::string *whole = 0) {
	VH_CHECK(!res.GetErrors().empty(), "no-place", what);
	std::string all;
	if (!whole) { all = res.PrettyPrintMessage(); whole = &all; }
	for (size_t i = 0; i < res.GetErrors().size(); ++i) {
		const ValidationError &e = res.GetErrors()[i];
		std::string at = cat("data ", e.GetDataPathStr(), " schema ", e.GetSchemaPathStr(), " ", e.GetMessage());
		bool choice = false;
		VH_CHECK(explains(s, v, e.GetDataPath(), 0, e.GetSchemaPath(), 0, choice), "wrong-place", at, " | ", what);
		VH_CHECK(vv.HasPath(e.GetDataPath()), "no-such-data", at, " | ", what);
		VH_CHECK(e.GetDataPathStr() == PathString(e.GetDataPath()) && e.GetSchemaPathStr() == PathString(e.GetSchemaPath()), "place-text", at, " | ", what);
		std::string text = e.PrettyPrintMessage();
		VH_CHECK(text.find(e.GetMessage()) != std::string::npos && text.find(e.GetDataPathStr()) != std::string::npos && text.find(e.GetSchemaPathStr()) != std::string::npos, "place-not-printed", printable(text, 400), " | ", what);
		VH_CHECK(whole->find(e.GetMessage()) != std::string::npos && whole->find(e.GetDataPathStr()) != std::string::npos && whole->find(e.GetSchemaPathStr()) != std::string::npos, "error-not-printed", printable(text, 400), " in ", printable(*whole, 800), " | ", what);
		VH_CHECK(level || whole->find(text) != std::string::npos, "error-not-printed", printable(text, 400), " | ", what);
		count(e.GetDataPath().empty() ? "place-root" : "place-deep");
		if (e.GetSchemaPath().back().IsString()) count(("at-" + e.GetSchemaPath().back().AsString()).c_str());
		else count("at-list");
		if (below) {
			const Where &up = *below;
			bool in = e.GetSchemaPath().size() > up.size();
			for (size_t j = 0; in && j < up.size(); ++j) in = up[j].IsNumber() ? e.GetSchemaPath()[j].IsNumber() && e.GetSchemaPath()[j].AsUnsigned() == up[j].AsUnsigned() : key_at(e.GetSchemaPath(), j, up[j].AsString());
			VH_CHECK(in, "sub-error-elsewhere", at, " under ", PathString(up), " | ", what);
		}
		if (!choice) { VH_CHECK(e.GetSubErrors().empty(), "needless-sub-errors", at, " | ", what); continue; }
		// one explanation for each alternative, or none when several accept
		const MV *list = alternatives(s, e.GetSchemaPath(), 0);
		if (!list || list->k != K_LIST) harness_error("alternatives");
		const std::vector<SchemaResult> &subs = e.GetSubErrors();
		if (subs.empty()) { VH_CHECK(key_at(e.GetSchemaPath(), e.GetSchemaPath().size() - 1, "oneOf"), "unexplained", at, " | ", what); count("several-accept"); continue; }
		VH_CHECK(subs.size() == list->l.size(), "alternatives-explained", subs.size(), " of ", list->l.size(), " ", at, " | ", what);
		for (size_t j = 0; j < subs.size(); ++j) {
			VH_CHECK(!subs[j].SchemaErrors(), "schema-error", at, " | ", what);
			Where up = e.GetSchemaPath();
			up.push_back(PathElement((unsigned)j));
			places(s, v, vv, subs[j], &up, what, level + 1, whole);
		}
		count("explained");
	}
}

// ---- keywords that are malformed
struct Reached { MV *s; Where at; std::set<int> kinds; };
static void all_schemas(MV &s, const Where &at, std::vector<Reached> &out) {
	Reached x;
	x.s = &s;
	x.at = at;
	out.push_back(x);
	static const char *one[] = { "not", "items", "additionalItems", "additionalProperties" };
	static const char *many[] = { "allOf", "anyOf", "oneOf", "items" };
	static const char *maps[] = { "properties", "patternProperties", "dependencies" };
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(one[i]); if (j != s.m.end() && j->second.k == K_MAP) { Where p = at; p.push_back(one[i]); all_schemas(j->second, p, out); } }
	for (int i = 0; i < 4; ++i) { std::map<std::string, MV>::iterator j = s.m.find(many[i]); if (j != s.m.end() && j->second.k == K_LIST) for (size_t k = 0; k < j->second.l.size(); ++k) { Where p = at; p.push_back(many[i]); p.push_back((unsigned)k); all_schemas(j->second.l[k], p, out); } }
	for (int i = 0; i < 3; ++i) { std::map<std::string, MV>::iterator j = s.m.find(maps[i]); if (j != s.m.end()) for (std::map<std::string, MV>::iterator k = j->second.m.begin(); k != j->second.m.end(); ++k) if (k->second.k == K_MAP) { Where p = at; p.push_back(maps[i]); p.push_back(k->first); all_schemas(k->second, p, out); } }
}
// kinds of the values that certainly meet the schema when all is accepted
static void meets(const MV &s, const MV &v, const MV *which, std::set<int> &kinds) {
	if (&s == which) kinds.insert(v.k);
	const MV *k;
	if ((k = get(s, "allOf"))) for (size_t i = 0; i < k->l.size(); ++i) meets(k->l[i], v, which, kinds);
	if (v.k == K_LIST && (k = get(s, "items"))) {
		const MV *more = get(s, "additionalItems");
		for (size_t i = 0; i < v.l.size(); ++i) {
			if (k->k == K_MAP) meets(*k, v.l[i], which, kinds);
			else if (i < k->l.size()) meets(k->l[i], v.l[i], which, kinds);
			else if (more && more->k == K_MAP) meets(*more, v.l[i], which, kinds);
		}
	}
	if (v.k == K_MAP) {
		const MV *props = get(s, "properties"), *pats = get(s, "patternProperties"), *more = get(s, "additionalProperties");
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) {
			const MV *p;
			if (props && (p = get(*props, i->first.c_str()))) meets(*p, i->second, which, kinds);
			if (pats) for (std::map<std::string, MV>::const_iterator j = pats->m.begin(); j != pats->m.end(); ++j) if (std::regex_search(i->first, regex(j->first))) meets(j->second, i->second, which, kinds);
			if (more && more->k == K_MAP && !matches(s, i->first)) meets(*more, i->second, which, kinds);
		}
		if ((k = get(s, "dependencies"))) for (std::map<std::string, MV>::const_iterator i = k->m.begin(); i != k->m.end(); ++i) if (v.m.count(i->first) && i->second.k == K_MAP) meets(i->second, v, which, kinds);
	}
}
static MV some_other(Rng &r) {
	switch (r.below(5)) {
	case 0: return MV::Null();
	case 1: return MV::Map();
	case 2: return MV::List();
	case 3: return MV::Bool(r.coin());
	default: return MV::Int(r.below(3));
	}
}
static void malformed(Ctx &c) {
	Rng &r = c.rng;
	MV s, v;
	if (!pair(r, s, v)) { count("skipped"); return; }
	Refs none;
	refs = &none;
	std::vector<Reached> all;
	all_schemas(s, Where(), all);
	Reached &n = all[r.below(all.size())];
	static const char *words[] = { "type", "enum", "multipleOf", "minimum", "maximum", "minLength", "maxLength", "pattern", "minItems", "maxItems", "uniqueItems", "minProperties", "maxProperties", "required", "properties", "patternProperties", "dependencies", "allOf", "anyOf", "oneOf", "exclusiveMinimum", "exclusiveMaximum" };
	// kinds the keyword is for: 0 all, n number, s string, l list, m map
	static const char kinds[] = "00nnnssslllmmmmmm000nn";
	std::set<int> met;
	meets(s, v, n.s, met);
	int pick = r.below(22);
	if (!met.empty() && r.chance(3, 4)) {
		std::string may = "0";
		for (std::set<int>::iterator i = met.begin(); i != met.end(); ++i) may += *i == K_STR ? 's' : *i == K_LIST ? 'l' : *i == K_MAP ? 'm' : *i == K_INT || *i == K_UINT || *i == K_FLOAT ? 'n' : '0';
		while (may.find(kinds[pick]) == std::string::npos) pick = r.below(22);
	}
	std::string w = words[pick];
	if (n.s->m.count(w) && all.size() > 1 && get(s, w.c_str()) != &n.s->m[w] && r.chance(3, 4)) { count("skipped"); return; }
	MV without;
	// these mean nothing without the limit
	if (pick >= 20) { MV &limit = n.s->m[pick == 20 ? "minimum" : "maximum"]; if (r.chance(2, 3) || limit.k == K_NULL) limit = MV::Int(pick == 20 ? -(int)r.below(1000000) : (int)r.below(1000000)); }
	n.s->m.erase(w);
	without = s;
	met.clear();
	meets(s, v, n.s, met);
	MV bad;
	int other = r.below(3);
	switch (pick < 20 && kinds[pick] == 'n' ? 0 : pick) {
	case 0: if (w != "type") { bad = other == 0 ? MV::Str("3") : other == 1 ? MV::Null() : MV::List(); if (w == "multipleOf" && r.coin()) bad = MV::Int(-(int)r.below(2)); }
		else if (r.coin()) bad = MV::Str("any thing");
		else if (r.coin()) { bad = MV::List(); bad.l.push_back(r.coin() ? MV::Str("Object") : some_other(r)); }
		else do bad = some_other(r); while (bad.k == K_LIST);
		break;
	case 1: bad = other == 0 ? MV::Str("a") : other == 1 ? MV::Map() : MV::Int(1); break;
	case 5: case 6: case 8: case 9: case 11: case 12: bad = other == 0 ? r.coin() ? MV::Str("3") : MV::Int(-1 - (int)r.below(3)) : other == 1 ? r.coin() ? MV::Float(-1.5) : MV::Null() : MV::Map(); break;
	case 7: bad = other == 0 ? MV::Str("(a") : other == 1 ? MV::Int(1) : MV::Str("[b"); break;
	case 10: bad = other == 0 ? MV::Str("true") : other == 1 ? MV::Int(1) : MV::Null(); break;
	case 13: bad = other == 0 ? MV::Str("a") : MV::List(); if (other) { bad.l.push_back(other == 1 ? MV::Int(1) : MV::Null()); } break;
	case 14: bad = other == 0 ? MV::Str("a") : MV::List(); break;
	case 15: bad = other == 0 ? MV::Str("a") : other == 1 ? MV::List() : MV::Map(); if (other == 2) bad.m["(a"] = MV::Map(); break;
	case 16: bad = other == 0 ? MV::Str("a") : other == 1 ? MV::List() : MV::Map(); if (other == 2) { if (v.k != K_MAP || v.m.empty()) { count("skipped"); return; } MV &to = bad.m[v.m.begin()->first]; if (r.coin()) to = MV::Int(1); else { to = MV::List(); to.l.push_back(some_other(r)); } if (!n.at.empty()) { count("skipped"); return; } } break;
	case 20: case 21: bad = other == 0 ? MV::Str("true") : other == 1 ? MV::Int(1) : MV::Map(); break;
	default: bad = other == 0 ? MV::Str("a") : other == 1 ? MV::Map() : MV::Bool(true); break;
	}
	char kind = kinds[pick];
	bool applies = false;
	for (std::set<int>::iterator i = met.begin(); i != met.end(); ++i)
		applies = applies || kind == '0' || (kind == 's' && *i == K_STR) || (kind == 'l' && *i == K_LIST) || (kind == 'm' && *i == K_MAP) || (kind == 'n' && (*i == K_INT || *i == K_UINT || *i == K_FLOAT));
	bool rest = valid(without, v);
	n.s->m[w] = bad;
	std::string what = cat(w, " at ", PathString(n.at), " malformed in ", show(s, 3000), " for ", show(v, 1500));
	describe(what);
	Variant vs = to_variant(s), vv = to_variant(v);
	SchemaResult res = SchemaValidate(vs, vv);
	VH_CHECK(diff(v, from_variant(vv)).empty(), "document-changed", what);
	VH_CHECK(diff(s, from_variant(vs)).empty(), "schema-changed", what);
	if (rest && applies) { VH_CHECK(res.SchemaErrors(), "malformed-unreported", what); count("malformed-reported"); }
	if (!res.SchemaErrors()) {
		// the keyword was never looked at
		VH_CHECK(res.Error() == !rest, rest ? "refused" : "accepted", what);
		count("malformed-unseen");
		if (res.Error()) places(without, v, vv, res, 0, what);
		return;
	}
	for (size_t i = 0; i < res.GetSchemaErrors().size(); ++i) {
		const SchemaError &e = res.GetSchemaErrors()[i];
		const Where &p = e.GetSchemaPath();
		std::string at = cat("schema ", e.GetSchemaPathStr(), " ", e.GetMessage());
		bool in = p.size() >= n.at.size();
		for (size_t j = 0; in && j < n.at.size(); ++j) in = n.at[j].IsNumber() ? p[j].IsNumber() && p[j].AsUnsigned() == n.at[j].AsUnsigned() : key_at(p, j, n.at[j].AsString());
		const MV *there = &s;
		for (size_t j = 0; there && j < p.size(); ++j) {
			if (p[j].IsNumber()) there = there->k == K_LIST && p[j].AsUnsigned() < there->l.size() ? &there->l[p[j].AsUnsigned()] : 0;
			else there = there->k == K_MAP ? get(*there, p[j].AsString().c_str()) : 0;
		}
		VH_CHECK(there, "no-such-schema", at, " | ", what);
		VH_CHECK(in && p.size() > n.at.size() && key_at(p, n.at.size(), w), "malformed-elsewhere", at, " | ", what);
		VH_CHECK(!e.GetMessage().empty() && res.PrettyPrintMessage().find(e.GetSchemaPathStr()) != std::string::npos && res.PrettyPrintMessage().find(e.GetMessage()) != std::string::npos, "error-not-printed", at, " | ", what);
	}
	count(("malformed-" + w).c_str());
	nontrivial(hash(what));
	sample(printable(what, 400));
}
static void pointed(Ctx &c) {
	Rng &r = c.rng;
	if (r.chance(1, 3)) { malformed(c); return; }
	World w;
	w.external = r.coin();
	MV t, defs = MV::Map(), v;
	bool want = false, split = r.chance(1, 3);
	for (int n = 0;; ++n) {
		Refs none;
		refs = &none;
		w.docs.clear();
		w.meaning.clear();
		w.linked.clear();
		if (split ? split_pair(r, w, t, defs, v, want) : pair(r, t, v)) {
			refs = &none;
			if (!split) want = valid(t, v);
			if (!want) break;
		}
		if (n == 30) { count("skipped"); return; }
	}
	if (split && !defs.m.empty()) t.m["definitions"] = defs;
	refs = &w.meaning;
	std::string what = whole(t, v, w);
	describe(what);
	SchemaLoader loader;
	for (std::map<std::string, MV>::iterator i = w.docs.begin(); i != w.docs.end(); ++i) loader.AddSchema(i->first, to_variant(i->second));
	Variant vs = to_variant(t), vv = to_variant(v);
	SchemaResult res = SchemaValidate(vs, vv, &loader);
	VH_CHECK(!judge(res, what), "accepted", what);
	places(t, v, vv, res, 0, what);
	nontrivial(hash(what));
	sample(printable(what, 400));
}

static bool with_refs, with_places;
static void one(Ctx &c) {
	if (with_places) { pointed(c); return; }
	if (!with_refs) { verdict(c); return; }
	switch (c.rng.below(12)) {
	case 0: recursive(c); break;
	case 1: broken(c); break;
	case 2: address(c); break;
	case 3: case 4: identified(c); break;
	case 5: fetched(c); break;
	default: references(c);
	}
}
int main(int argc, char **argv) {
	for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--refs") with_refs = true;
	for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--where") with_places = true;
	return vh::run(argc, argv, one);
}
