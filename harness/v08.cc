// V08: YAML text preserves every document.
#include <set>
#include "model.h"
#include <yaml.h>
#include <math.h>
#include <errno.h>
using namespace vh;
using namespace libvariant;

static std::string unbase64(const std::string &s) {
	static const std::string tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	unsigned acc = 0, n = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '=' || s[i] == '\n' || s[i] == ' ') continue;
		size_t p = tab.find(s[i]);
		if (p == std::string::npos) throw Fail("yaml-blob-base64", "not base64: " + printable(s));
		acc = (acc << 6) | p;
		n += 6;
		if (n >= 8) { n -= 8; o += (char)((acc >> n) & 0xff); }
	}
	return o;
}

// An independent reader: YAML events, plain scalars by the YAML 1.2 core schema.
static bool all_in(const std::string &s, size_t from, const char *set) { return s.size() > from && s.find_first_not_of(set, from) == std::string::npos; }
static MV core(const std::string &s) {
	if (s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL") return MV::Null();
	if (s == "true" || s == "True" || s == "TRUE") return MV::Bool(true);
	if (s == "false" || s == "False" || s == "FALSE") return MV::Bool(false);
	size_t sign = (s[0] == '-' || s[0] == '+') ? 1 : 0;
	if (all_in(s, sign, "0123456789")) {
		errno = 0;
		if (s[0] == '-') { long long v = strtoll(s.c_str(), 0, 10); if (!errno) return MV::Int(v); }
		else { unsigned long long v = strtoull(s.c_str() + sign, 0, 10); if (!errno) return MV::Uint(v); }
		return MV::Float(strtod(s.c_str(), 0));
	}
	if (s.compare(0, 2, "0o") == 0 && all_in(s, 2, "01234567")) {
		errno = 0;
		unsigned long long v = strtoull(s.c_str() + 2, 0, 8);
		if (!errno) return MV::Uint(v);
		double d = 0;       // exact: the generated ones have few digits followed by zeros
		for (size_t i = 2; i < s.size(); ++i) d = d * 8 + (s[i] - '0');
		return MV::Float(d);
	}
	if (s.compare(0, 2, "0x") == 0 && all_in(s, 2, "0123456789abcdefABCDEF")) {
		errno = 0;
		unsigned long long v = strtoull(s.c_str() + 2, 0, 16);
		return errno ? MV::Float(strtod(s.c_str(), 0)) : MV::Uint(v);
	}
	std::string u = s.substr(sign);
	if (u == ".inf" || u == ".Inf" || u == ".INF") return MV::Float(s[0] == '-' ? -INFINITY : INFINITY);
	if (s == ".nan" || s == ".NaN" || s == ".NAN") return MV::Float(NAN);
	{   // [-+]? ( \. [0-9]+ | [0-9]+ ( \. [0-9]* )? ) ( [eE] [-+]? [0-9]+ )?
		size_t i = sign, d = 0, f = 0;
		while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; }
		bool ok = d > 0;
		if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++f; } if (!d) ok = f > 0; }
		if (ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; size_t e = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++e; } ok = e > 0; }
		if (ok && i == s.size()) return MV::Float(strtod(s.c_str(), 0));
	}
	return MV::Str(s);
}
struct Reader {
	yaml_parser_t p;
	yaml_event_t e;
	bool have;
	std::string error;
	int documents;
	explicit Reader(const std::string &t) : have(false), documents(0) { yaml_parser_initialize(&p); yaml_parser_set_input_string(&p, (const unsigned char *)t.data(), t.size()); }
	~Reader() { if (have) yaml_event_delete(&e); yaml_parser_delete(&p); }
	void next() {
		if (have) yaml_event_delete(&e);
		have = false;
		if (!yaml_parser_parse(&p, &e)) throw Fail("yaml-output-malformed", p.problem ? p.problem : "?");
		have = true;
	}
	MV node() {
		switch (e.type) {
		case YAML_SCALAR_EVENT: {
			std::string s((const char *)e.data.scalar.value, e.data.scalar.length);
			std::string tag = e.data.scalar.tag ? (const char *)e.data.scalar.tag : "";
			if (tag == "tag:yaml.org,2002:binary") return MV::Blob(unbase64(s));
			if (e.data.scalar.style != YAML_PLAIN_SCALAR_STYLE || tag == "!" || tag == "tag:yaml.org,2002:str") return MV::Str(s);
			return core(s);
		}
		case YAML_SEQUENCE_START_EVENT: {
			MV v = MV::List();
			for (next(); e.type != YAML_SEQUENCE_END_EVENT; next()) v.l.push_back(node());
			return v;
		}
		case YAML_MAPPING_START_EVENT: {
			MV v = MV::Map();
			for (next(); e.type != YAML_MAPPING_END_EVENT; ) {
				MV k = node();
				VH_CHECK(k.k == K_STR, "yaml-key-not-text", "a key is read as ", show(k));
				next();
				VH_CHECK(!v.m.count(k.s), "yaml-duplicate-key", k.s);
				v.m[k.s] = node();
				next();
			}
			return v;
		}
		default: throw Fail("yaml-output-malformed", cat("event ", (int)e.type));
		}
	}
	MV read() {
		next();   // stream start
		next();
		VH_CHECK(e.type == YAML_DOCUMENT_START_EVENT, "yaml-output-malformed", "no document");
		next();
		MV v = node();
		next();
		VH_CHECK(e.type == YAML_DOCUMENT_END_EVENT, "yaml-output-malformed", "no end of document");
		next();
		VH_CHECK(e.type == YAML_STREAM_END_EVENT, "yaml-output-malformed", "more than one document");
		return v;
	}
};

static std::string near_scalar(Rng &r) {
	static const char *seed[] = { "null", "~", "true", "False", "12", "-7", "+3", "0o17", "0x1f", "1.5", ".5", "5.", "1e5", "1E-3", "-.inf", ".nan", "0", "00", "-0", "0.0", "1.", "+.5e1" };
	std::string s = r.pick(seed);
	static const char alpha[] = "0123456789+-.eExoaNnTtuUlL~ \t\n_:,";
	for (int n = r.below(3); n > 0; --n) {
		size_t at = r.below(s.size() + 1);
		char c = alpha[r.below(sizeof(alpha) - 1)];
		switch (r.below(3)) {
		case 0: s.insert(at, 1, c); break;
		case 1: if (at < s.size()) s[at] = c; break;
		default: if (at < s.size()) s.erase(at, 1); break;
		}
	}
	return s;
}

static void sprinkle(Rng &r, MV &v) {
	if (v.k == K_STR && r.chance(1, 3)) { v.s = near_scalar(r); count("looks-like-scalar"); }
	for (auto &x : v.l) sprinkle(r, x);
	std::map<std::string, MV> m;
	for (auto &x : v.m) { sprinkle(r, x.second); m[r.chance(1, 6) ? near_scalar(r) : x.first] = x.second; }
	v.m.swap(m);
}

static Variant gen_params(Rng &r) {
	if (r.chance(1, 6)) return Variant::NullType;
	Variant p = Variant::MapType;
	static const char *ss[] = { "any", "plain", "single quoted", "double quoted", "literal", "folded" };
	static const char *st[] = { "any", "block", "flow" };
	if (r.chance(1, 3)) p["scalar_style"] = r.pick(ss);
	if (r.coin()) p["map_style"] = r.pick(st);
	if (r.coin()) p["list_style"] = r.pick(st);
	if (r.chance(1, 3)) p["implicit_document_begin"] = r.coin();
	if (r.chance(1, 3)) p["implicit_document_end"] = r.coin();
	if (r.chance(1, 3)) p["indent"] = r.range(-1, 12);
	if (r.chance(1, 3)) p["width"] = r.chance(1, 3) ? r.range(-1, 10) : r.range(10, 200);
	if (r.chance(1, 4)) p["precision"] = r.range(17, 25);
	return p;
}

static void round_trip(Ctx &c) {
	Rng &r = c.rng;
	Gen g;
	g.nonfinite = true;
	g.max_depth = r.chance(1, 20) ? 10 : 4;
	if (r.chance(1, 10)) g.max_items = 12;
	MV doc = r.chance(1, 6) ? gen_scalar(r, g) : gen_container(r, g);
	sprinkle(r, doc);
	if (r.chance(1, 60)) {
		int n = r.range(20, 60);
		for (int i = 0; i < n; ++i) { MV o = r.coin() ? MV::List() : MV::Map(); if (o.k == K_LIST) o.l.push_back(doc); else o.m["k"] = doc; doc = o; }
		count("deep-nesting");
	}
	if (r.chance(1, 1500)) { doc = gen_large(r, g, 300); count("large"); }
	Variant params = gen_params(r);
	std::string ptext = params.IsMap() ? SerializeJSON(params) : "none";
	describe(show(doc, 9000) + " params " + ptext);
	Variant v = to_variant(doc, r);
	std::string text;
	try { text = Serialize(v, SERIALIZE_YAML, params); }
	catch (const std::exception &e) { throw Fail("yaml-refused", cat(e.what(), " for ", show(doc, 1500), " params ", ptext)); }
	count("documents");
	std::string d = diff(doc, from_variant(v));
	VH_CHECK(d.empty(), "yaml-writing-changed-document", d, " | ", show(doc));
	MV back;
	try { back = from_variant(Deserialize(text, SERIALIZE_YAML)); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail("yaml-roundtrip-rejected", cat("own output rejected: ", e.what(), " | ", show(doc, 1500), " | params ", ptext, " | text ", printable(text, 1500))); }
	d = diff(doc, back);
	VH_CHECK(d.empty(), "yaml-roundtrip-differs", d, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500));
	try {
		Reader rd(text);
		MV ind = rd.read();
		d = diff(doc, ind);
	} catch (const Fail &f) {
		throw Fail(f.key, cat(f.msg, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500)));
	}
	VH_CHECK(d.empty(), "yaml-output-differs", d, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500));
	VH_CHECK(Serialize(v, SERIALIZE_YAML, params) == text, "yaml-not-repeatable", show(doc));
	if (r.chance(1, 8)) {        // a small precision keeps numbers numbers, close to what they were
		int prec = r.range(1, 16);
		double f = gen_double(r, false);
		Variant q = Variant::MapType;
		q["precision"] = prec;
		Variant l;
		l.Append(f);
		Variant b = Deserialize(Serialize(l, SERIALIZE_YAML, q), SERIALIZE_YAML);
		VH_CHECK(b.IsList() && b.Size() == 1 && b[0].IsFloat(), "yaml-precision-kind", bits(f), " precision ", prec, " gave ", show(from_variant(b)));
		double back = b[0].AsDouble();
		VH_CHECK(std::isinf(back) ? fabs(f) > 1e307 : fabs(back - f) <= fabs(f) * pow(10.0, 1 - prec) + 5e-324, "yaml-precision-value", bits(f), " precision ", prec, " gave ", bits(back));
		count("precision");
	}
	size_t n = nodes(doc);
	count("nodes", n);
	if (n > 2) nontrivial(shape(doc));
	if (n > 4 && n < 20) sample("params " + ptext + " doc " + show(doc, 400) + " text " + printable(text, 500));
}

// Hand-written flow text with anchors and aliases, judged by substitution.
struct Aliases {
	Rng &r;
	std::map<std::string, MV> anchors;
	std::set<std::string> open;
	int made, used, redefined, keys;
	explicit Aliases(Rng &r_) : r(r_), made(0), used(0), redefined(0), keys(0) {}
	// Keys have anchors and can be aliases too.
	std::string key(const MV &map, std::string &key) {
		if (r.chance(1, 6)) {
			std::string a = std::string(1, (char)('a' + r.below(3)));
			if (open.count(a)) return key;
			if (anchors.count(a)) ++redefined;
			anchors[a] = MV::Str(key);
			++made; ++keys;
			return "&" + a + " " + key;
		}
		for (auto &i : anchors) if (i.second.k == K_STR && !map.m.count(i.second.s) && r.chance(1, 4)) {
			key = i.second.s;
			++used; ++keys;
			return "*" + i.first;
		}
		return key;
	}
	std::string value(MV &v, int depth) {
		if (!anchors.empty() && r.chance(1, 3)) {
			auto i = anchors.begin();
			std::advance(i, r.below(anchors.size()));
			v = i->second;
			++used;
			return "*" + i->first;
		}
		std::string a, t;
		if (r.chance(1, 3)) a = std::string(1, (char)('a' + r.below(3)));
		if (open.count(a)) a.clear();       // the same name inside itself is not judged
		bool opened = !a.empty() && open.insert(a).second;
		int k = depth > 3 ? 0 : r.below(3);
		if (k == 0) {
			static const struct { const char *text, *bytes; } binary[] = { { "aGVsbG8=", "hello" }, { "\"YWI=\"", "ab" }, { "YWJj", "abc" } };
			switch (r.below(6)) {
			case 4: { int i = r.below(3); v = MV::Blob(binary[i].bytes); t = cat("!!binary ", binary[i].text); break; }
			case 5: v = MV::Float(r.range(-40, 40) + 0.25); t = cat(v.f); break;
			case 0: { int n = r.range(-50, 50); v = MV::Int(n); t = cat(n); break; }
			case 1: v = MV::Bool(r.coin()); t = v.b ? "true" : "false"; break;
			case 2: { std::string s; for (int i = r.below(6); i >= 0; --i) s += (char)('a' + r.below(26)); v = MV::Str(s); t = "\"" + s + "\""; break; }
			default: v = MV::Null(); t = "null"; break;
			}
		} else if (k == 1) {
			v = MV::List();
			t = "[";
			for (int i = r.below(4); i > 0; --i) { MV x; t += (t.size() > 1 ? ", " : "") + value(x, depth + 1); v.l.push_back(x); }
			t += "]";
		} else {
			v = MV::Map();
			t = "{";
			for (int i = r.below(4); i > 0; --i) { MV x; std::string key = cat("k", i), k = this->key(v, key); t += (t.size() > 1 ? ", " : "") + k + " : " + value(x, depth + 1) + " "; v.m[key] = x; }
			t += "}";
		}
		if (opened) open.erase(a);
		if (!a.empty()) {
			if (anchors.count(a)) ++redefined;
			anchors[a] = v;
			++made;
			t = "&" + a + " " + t;
		}
		return t;
	}
};
static void aliases(Ctx &c) {
	Rng &r = c.rng;
	Aliases a(r);
	MV doc = MV::List();
	std::string t;
	for (int i = r.range(1, 5); i > 0; --i) { MV x; t += "- " + a.value(x, 0) + "\n"; doc.l.push_back(x); }
	if (nodes(doc) > 5000) { count("skipped-huge"); return; }
	describe(t);
	MV got;
	try { got = from_variant(Deserialize(t, SERIALIZE_YAML)); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail("yaml-alias-refused", cat(e.what(), " for ", t)); }
	std::string d = diff(doc, got);
	VH_CHECK(d.empty(), "yaml-alias-value", d, " | text ", t);
	count("alias-text");
	count("alias-used", a.used);
	count("anchor-redefined", a.redefined);
	count("key-anchors", a.keys);
	if (a.used) nontrivial(hash(t));
}

// Plain scalars by the core schema.
static void plain(Ctx &c) {
	Rng &r = c.rng;
	std::string t;
	for (int i = r.range(1, 6); i > 0; --i) {
		std::string s = near_scalar(r);
		if (r.chance(1, 10)) {
			s = r.chance(1, 3) ? "0x" : r.chance(1, 3) ? "-" : r.coin() ? "+" : "";
			bool hex = s == "0x";
			s += (char)('1' + r.below(9));
			for (int n = hex ? r.range(13, 20) : r.range(16, 24); n > 0; --n) s += "0123456789abcdef"[r.below(hex ? 16 : 10)];
			if (!hex && r.chance(1, 3)) s = r.coin() ? "18446744073709551616" : r.coin() ? "-9223372036854775809" : r.coin() ? "18446744073709551615" : "-9223372036854775808";
			if (r.chance(1, 4)) {
				s = "0o";
				for (int n = r.range(1, 15); n > 0; --n) s += (char)('1' + r.below(7));
				s += std::string(r.range(5, 60), '0');
			}
			count("long-integer");
		}
		if ( s.find_first_not_of("0123456789+-.eExoabcdfNnTtuUlLFsfiIrR~") != std::string::npos || s.empty() || s == "-" || s.compare(0, 2, "--") == 0 || s == "..." || s == ".Nan") { count("skipped-scalar"); continue; }
		// the same text quoted, as a block or tagged as a text is a text
		switch (r.below(12)) {
		case 0: t += "- \"" + s + "\"\n"; count("quoted-scalar"); break;
		case 1: t += "- '" + s + "'\n"; count("quoted-scalar"); break;
		case 2: t += "- |-\n  " + s + "\n"; count("quoted-scalar"); break;
		case 3: t += "- >\n  " + s + "\n"; count("quoted-scalar"); break;
		case 4: t += "- !!str " + s + "\n"; count("tagged-scalar"); break;
		case 5: t += "- ! " + s + "\n"; count("tagged-scalar"); break;
		default: t += "- " + s + "\n"; break;
		}
	}
	if (t.empty()) return;
	describe(t);
	MV want, got;
	{ Reader rd(t); want = rd.read(); }
	try { got = from_variant(Deserialize(t, SERIALIZE_YAML)); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail("yaml-plain-refused", cat(e.what(), " for ", t)); }
	std::string d = diff(want, got);
	VH_CHECK(d.empty(), "yaml-plain-scalar", d, " | text ", t);
	count("plain-scalars", want.l.size());
	nontrivial(hash(t));
}

static void one(Ctx &c) {
	if (c.rng.chance(1, 8)) plain(c);
	else if (c.rng.chance(1, 6)) aliases(c);
	else round_trip(c);
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
