// V10: bundle headers preserve flat headers and refuse what they cannot hold.
#include "model.h"
#include <Variant/ParserInput.h>
#include <Variant/Parser.h>
#include <math.h>
#include <sstream>
using namespace vh;
using namespace libvariant;

static std::string plain_key(Rng &r) {
	static const char *pool[] = { "a", "name", "payload.length", "x/y", "k[0]", "a|b", "version", "bundle", "bundle.versions", "\"q\"", "-", "=", "\xc3\xa9t\xc3\xa9", "~", "null", "0" };
	if (r.coin()) return pool[r.below(sizeof(pool) / sizeof(*pool))];
	std::string s;
	int n = r.chance(1, 30) ? r.range(100, 5000) : r.range(1, 12);
	for (int i = 0; i < n; ++i) {
		char c = (char)r.range(33, 126);
		s += c == ':' || c == '#' ? '_' : c;
	}
	return s == "bundle.version" ? "b" : s;
}
static std::string plain_text(Rng &r, bool item) {
	static const char *pool[] = { "x", "hello world", "a: b", "-", "--- x", "[1, 2]", "{\"a\": 1}", "<xml/>", "C:\\dir", "\xe2\x82\xac", "a\tb", "1 2", "1.2.3", "12:30", "yes", "nul", "truee", "0xg", "+", ".", "e5", "1e", "- 1" };
	if (!item && r.chance(1, 20)) return "";
	if (r.coin()) return pool[r.below(sizeof(pool) / sizeof(*pool))];
	std::string s;
	int n = r.chance(1, 20) ? r.range(100, 20000) : r.range(1, 20);
	for (int i = 0; i < n; ++i) {
		char c = (char)r.range(32, 126);
		if (c == '|' || c == '#') c = '_';
		if (c == ' ' && (i == 0 || i == n - 1)) c = '.';
		s += c;
	}
	return s;
}
static MV plain_scalar(Rng &r, bool item) {
	Gen g;
	g.nonfinite = false;
	switch (r.below(item ? 6 : 7)) {
	case 0: return MV::Bool(r.coin());
	case 1: return MV::Int(gen_int(r));
	case 2: return MV::Uint(gen_uint(r));
	case 3: return MV::Float(gen_double(r, false));
	case 6: return MV::Null();
	default: return MV::Str(plain_text(r, item));
	}
}
static MV header(Rng &r) {
	MV m = MV::Map();
	if (r.chance(1, 1500)) {                 // more or longer than any internal size
		count("large");
		if (r.coin()) { for (int n = r.range(5000, 15000), i = 0; i < n; ++i) m.m[cat("k", i)] = MV::Int(i); return m; }
		MV l = MV::List();
		for (int n = r.range(10000, 40000), i = 0; i < n; ++i) l.l.push_back(MV::Str(cat("item", i)));
		m.m["k"] = r.coin() ? l : MV::Str(std::string(r.range(65000, 300000), 'x'));
		return m;
	}
	int n = r.chance(1, 40) ? r.range(50, 300) : r.below(9);
	for (int i = 0; i < n; ++i) {
		std::string k = plain_key(r);
		if (r.chance(1, 3)) {
			MV l = MV::List();
			for (int j = r.chance(1, 20) ? r.range(20, 400) : r.below(5); j > 0; --j) l.l.push_back(plain_scalar(r, true));
			m.m[k] = l;
		} else m.m[k] = plain_scalar(r, false);
	}
	return m;
}

// The value read for something written: same text, or the number, boolean or null that the text spells.
static bool is_number(const std::string &s, bool &integer) {
	size_t i = 0, n = s.size(), d = 0;
	if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
	while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; }
	if (i == n) { integer = true; return d > 0; }
	integer = false;
	if (s[i] == '.') { ++i; while (i < n && isdigit((unsigned char)s[i])) { ++i; ++d; } }
	if (!d) return false;
	if (i < n && (s[i] == 'e' || s[i] == 'E')) {
		++i;
		if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
		size_t e = i;
		while (i < n && isdigit((unsigned char)s[i])) ++i;
		if (e == i) return false;
	}
	return i == n;
}
static bool reads_as(const MV &want, const MV &got) {
	switch (want.k) {
	case K_NULL: return got.k == K_NULL || (got.k == K_STR && got.s.empty());
	case K_BOOL: return (got.k == K_INT && got.i == (want.b ? 1 : 0)) || (got.k == K_UINT && got.u == (want.b ? 1u : 0u)) || (got.k == K_BOOL && got.b == want.b);
	case K_INT: case K_UINT: case K_FLOAT: return diff(want, got).empty();
	case K_STR: {
		if (got.k == K_STR) return got.s == want.s;
		bool integer = false;
		if (want.s.empty() || want.s == "~" || !strcasecmp(want.s.c_str(), "null")) return got.k == K_NULL;
		if (!strcasecmp(want.s.c_str(), "true")) return got.k == K_BOOL && got.b;
		if (!strcasecmp(want.s.c_str(), "false")) return got.k == K_BOOL && !got.b;
		if (want.s.compare(0, 2, "0x") == 0) return got.k == K_UINT || got.k == K_INT;
		if (want.s.compare(0, 2, "0o") == 0) return got.k == K_UINT || got.k == K_INT;
		if (!is_number(want.s, integer)) return false;
		if (got.k == K_FLOAT) return !integer && got.f == strtod(want.s.c_str(), 0);
		if (!integer) return false;
		if (want.s.size() > 18) return got.k == K_INT || got.k == K_UINT;
		return got.k == K_INT ? got.i == strtoll(want.s.c_str(), 0, 10) : got.k == K_UINT && got.u == strtoull(want.s.c_str(), 0, 10);
	}
	case K_LIST: {
		if (got.k != K_LIST || got.l.size() != want.l.size()) return false;
		for (size_t i = 0; i < got.l.size(); ++i) if (!reads_as(want.l[i], got.l[i])) return false;
		return true;
	}
	default: return false;
	}
}
static std::string compare(const MV &want, const MV &got) {
	if (got.k != K_MAP) return "not a map: " + show(got, 300);
	for (auto &x : want.m) {
		auto it = got.m.find(x.first);
		if (it == got.m.end()) return "key lost: " + printable(x.first, 300);
		if (!reads_as(x.second, it->second)) return cat("at ", printable(x.first, 300), " wrote ", show(x.second, 500), " read ", show(it->second, 500));
	}
	for (auto &x : got.m) if (!want.m.count(x.first)) return "key appeared: " + printable(x.first, 300);
	return "";
}
static MV read_text(Rng &r, const std::string &t) {
	if (r.coin()) return from_variant(Deserialize(t, SERIALIZE_BUNDLEHDR));
	std::stringbuf sb(t);
	return from_variant(DeserializeFile(&sb, SERIALIZE_BUNDLEHDR));
}
static void check_read(Rng &r, const MV &want, const std::string &t, const char *what) {
	MV got;
	try { got = read_text(r, t); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail(cat("bundle-", what, "-refused"), cat(e.what(), " for ", printable(t, 2000))); }
	std::string d = compare(want, got);
	VH_CHECK(d.empty(), cat("bundle-", what, "-differs"), d, " | text ", printable(t, 2000));
}

static void round_trip(Ctx &c) {
	Rng &r = c.rng;
	MV doc = header(r);
	describe(show(doc, 6000));
	Variant v = to_variant(doc, r);
	std::string text;
	try { text = Serialize(v, SERIALIZE_BUNDLEHDR); }
	catch (const std::exception &e) { throw Fail("bundle-refused", cat(e.what(), " for ", show(doc, 1500))); }
	check_read(r, doc, text, "roundtrip");
	count("documents");
	// one line for each entry, apart from the format's own
	size_t lines = 0;
	for (char ch : text) lines += ch == '\n';
	VH_CHECK(lines == doc.m.size() + 1, "bundle-line-count", lines, " lines for ", show(doc, 1500), " text ", printable(text, 1500));
	if (!text.empty() && text[text.size() - 1] == '\n') {
		text.erase(text.size() - 1);
		check_read(r, doc, text, "unterminated");
		count("no-final-newline");
	}
	if (doc.m.size() > 1) nontrivial(shape(doc));
	if (doc.m.size() > 1 && text.size() < 200) sample(printable(text));
}

static std::string blanks(Rng &r, const char *from = " \t") {
	std::string s;
	while (r.chance(1, 3)) s += from[r.below(2)];
	return s;
}
static std::string spell(Rng &r, const MV &v) {
	switch (v.k) {
	case K_NULL: return "";
	case K_BOOL: return v.b ? "1" : "0";
	case K_INT: return cat(v.i);
	case K_UINT: return cat(v.u);
	case K_FLOAT: { char b[64]; snprintf(b, sizeof(b), "%.17g", v.f); std::string s = b; if (s.find_first_of(".e") == std::string::npos) s += ".0"; return s; }
	default: return v.s;
	}
}
// Headers written by hand: comments, blank lines, blanks around everything, either line end.
static void written(Ctx &c) {
	Rng &r = c.rng;
	MV doc = header(r);
	std::string eol = r.chance(1, 4) ? "\r\n" : "\n", t;
	if (r.coin()) t += "bundle.version: 0.0" + eol;
	bool comment_last = false;
	for (auto &x : doc.m) {
		while (r.chance(1, 6)) { t += blanks(r) + "# note: " + x.first + eol; count("comment-line"); }
		while (r.chance(1, 8)) t += blanks(r) + eol;
		t += blanks(r) + x.first + blanks(r) + ":" + blanks(r);
		if (x.second.k == K_LIST) {
			for (size_t i = 0; i < x.second.l.size(); ++i) t += (i ? "|" : "") + spell(r, x.second.l[i]);
			if (x.second.l.size() < 2 || r.coin()) t += "|";
			count("list");
		} else t += spell(r, x.second);
		t += blanks(r);
		comment_last = r.chance(1, 6);
		if (comment_last) { t += " # remark | : x"; count("trailing-comment"); }
		t += eol;
	}
	if (r.chance(1, 4)) { t += "# the end"; if (r.coin()) t += eol; }
	else if (r.chance(1, 3)) t.erase(t.size() - std::min(t.size(), eol.size()));
	if (t.find_first_not_of(" \t\r\n") == std::string::npos) return;
	describe(printable(t, 6000));
	check_read(r, doc, t, "written");
	count("written-text");
	nontrivial(hash(t));
}

static void refused(Ctx &c) {
	Rng &r = c.rng;
	Gen g;
	g.max_depth = 2;
	MV doc = header(r), bad;
	const char *what = "";
	switch (r.below(6)) {
	case 0: what = "nested-map"; bad = MV::Map(); if (r.coin()) bad.m["x"] = plain_scalar(r, false); doc.m[plain_key(r)] = bad; break;
	case 1: what = "nested-list"; bad = MV::List(); if (r.coin()) bad.l.push_back(plain_scalar(r, true)); { MV l = MV::List(); if (r.coin()) l.l.push_back(plain_scalar(r, true)); l.l.push_back(bad); doc.m[plain_key(r)] = l; } break;
	case 2: what = "map-in-list"; { MV l = MV::List(); if (r.coin()) l.l.push_back(plain_scalar(r, true)); l.l.push_back(MV::Map()); doc.m[plain_key(r)] = l; } break;
	case 3: what = "blob"; bad = MV::Blob(r.coin() ? "" : "bytes"); if (r.coin()) doc.m[plain_key(r)] = bad; else { MV l = MV::List(); l.l.push_back(bad); doc.m[plain_key(r)] = l; } break;
	case 4: what = "list-root"; { MV l = MV::List(); for (int n = r.below(3); n > 0; --n) l.l.push_back(plain_scalar(r, true)); doc = l; } break;
	default: what = "scalar-root"; doc = plain_scalar(r, true); break;
	}
	describe(cat(what, " ", show(doc, 4000)));
	Variant v = to_variant(doc, r);
	bool raised = false;
	std::string text;
	try { text = Serialize(v, SERIALIZE_BUNDLEHDR); }
	catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, cat("bundle-accepted-", what), show(doc, 1500), " text ", printable(text, 1500));
	count(cat("refused-", what).c_str());
	nontrivial(shape(doc) ^ 77);
}

static void one(Ctx &c) {
	switch (c.rng.below(4)) {
	case 0: refused(c); break;
	case 1: written(c); break;
	default: round_trip(c);
	}
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
