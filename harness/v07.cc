// V07: every standard JSON document is accepted with its value; truncations and syntax errors are not.
#include "model.h"
#include <nlohmann/json.hpp>
#include <errno.h>
#include <math.h>
using namespace vh;
using namespace libvariant;

// ---- an independent JSON reader: value of the first document in the text
struct Sax : public nlohmann::json_sax<nlohmann::json> {
	std::vector<MV> stack; std::vector<std::string> keys; MV root; bool dup, big, done;
	Sax() : dup(false), big(false), done(false) {}
	bool add(const MV &v) {
		if (stack.empty()) { root = v; done = true; return true; }
		if (stack.back().k == K_LIST) stack.back().l.push_back(v);
		else { if (stack.back().m.count(keys.back())) dup = true; stack.back().m[keys.back()] = v; }
		return true;
	}
	bool close() { MV v = stack.back(); stack.pop_back(); keys.pop_back(); return add(v); }
	bool null() { return add(MV::Null()); }
	bool boolean(bool b) { return add(MV::Bool(b)); }
	bool number_integer(number_integer_t i) { return add(MV::Int(i)); }
	bool number_unsigned(number_unsigned_t u) { return add(MV::Uint(u)); }
	bool number_float(number_float_t, const string_t &s) {
		double d = strtod(s.c_str(), 0);
		if (s.find_first_of(".eE") == std::string::npos || !isfinite(d)) big = true;
		return add(MV::Float(d));
	}
	bool string(string_t &s) { return add(MV::Str(s)); }
	bool binary(binary_t &) { return false; }
	bool start_object(size_t) { stack.push_back(MV::Map()); keys.push_back(""); return true; }
	bool key(string_t &k) { keys.back() = k; return true; }
	bool end_object() { return close(); }
	bool start_array(size_t) { stack.push_back(MV::List()); keys.push_back(""); return true; }
	bool end_array() { return close(); }
	bool parse_error(size_t, const std::string &, const nlohmann::detail::exception &e) { error = e.what(); return false; }
	std::string error;
};

static bool utf8_ok(const std::string &s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size()) return false;
		uint32_t cp = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
		for (int k = 1; k <= n; ++k) { unsigned char d = s[i + k]; if ((d & 0xc0) != 0x80) return false; cp = cp << 6 | (d & 63); }
		if ((n == 2 && (cp < 0x800 || (cp >= 0xd800 && cp < 0xe000))) || (n == 3 && (cp < 0x10000 || cp > 0x10ffff))) return false;
		i += n + 1;
	}
	return true;
}
static bool all_utf8(const MV &v) {
	if (v.k == K_STR && !utf8_ok(v.s)) return false;
	for (auto &x : v.l) if (!all_utf8(x)) return false;
	for (auto &x : v.m) if (!utf8_ok(x.first) || !all_utf8(x.second)) return false;
	return true;
}
// The text without what the parser tolerates beyond the standard: bytes before the opening bracket, comments, and a
// decimal point without digits after it.
static std::string without_extensions(std::string t) {
	while (!t.empty() && t[0] != '[' && t[0] != '{' && t.compare(0, 2, "/*")) t.erase(0, 1);
	if (!t.compare(0, 2, "/*")) { size_t e = t.find("*/", 2); return e == std::string::npos ? t : without_extensions(t.substr(e + 2)); }
	std::string o;
	bool in = false;
	for (size_t i = 0; i < t.size(); ++i) {
		char c = t[i];
		if (in) { o += c; if (c == '\\' && i + 1 < t.size()) o += t[++i]; else if (c == '"') in = false; continue; }
		if (c == '"') { in = true; o += c; continue; }
		if (c == '/' && i + 1 < t.size() && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); if (e == std::string::npos) return t; o += ' '; i = e + 1; continue; }
		o += c;
		if (c == '.' && i && isdigit((unsigned char)t[i - 1]) && i + 1 < t.size() && !isdigit((unsigned char)t[i + 1])) o += '0';
	}
	return o;
}
static bool lone_surrogate_possible(const std::string &s) {
	for (size_t i = 0; i + 3 < s.size(); ++i) if (s[i] == '\\' && s[i + 1] == 'u' && (s[i + 2] == 'd' || s[i + 2] == 'D') && strchr("89abcdefABCDEF", s[i + 3])) return true;
	return false;
}

// ---- a writer that uses every liberty the grammar gives
static void ws(Rng &r, std::string &o, int heavy) {
	static const char w[] = " \t\n\r";
	int n = heavy == 0 ? 0 : heavy == 1 ? r.below(2) : r.below(5);
	while (n-- > 0) o += w[r.below(4)];
}
static void esc16(std::string &o, unsigned u, Rng &r) {
	char b[8];
	snprintf(b, sizeof(b), r.coin() ? "\\u%04x" : "\\u%04X", u);
	o += b;
}
static void put_string(const std::string &s, Rng &r, std::string &o) {
	o += '"';
	int style = r.below(3);
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3;
		bool e = style == 2 || (style == 1 && r.chance(1, 4)) || c < 0x20 || c == '"' || c == '\\';
		if (!e) { o.append(s, i, n + 1); i += n + 1; continue; }
		const char *sh = 0;
		switch (c) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; }
		if (sh && r.coin()) { o += sh; i += 1; count("short-escape"); continue; }
		uint32_t cp = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
		for (int k = 1; k <= n; ++k) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
		if (cp >= 0x10000) { cp -= 0x10000; esc16(o, 0xd800 + (cp >> 10), r); esc16(o, 0xdc00 + (cp & 0x3ff), r); count("surrogate-pair"); }
		else { esc16(o, cp, r); count("unicode-escape"); }
		i += n + 1;
	}
	o += '"';
}
static void put_number(MV &v, Rng &r, std::string &o) {
	char b[400];
	if (v.k == K_INT) { snprintf(b, sizeof(b), "%lld", (long long)v.i); o += b; return; }
	if (v.k == K_UINT) { snprintf(b, sizeof(b), "%llu", (unsigned long long)v.u); o += b; return; }
	switch (r.below(5)) {
	case 0: snprintf(b, sizeof(b), "%.17g", v.f); break;
	case 1: snprintf(b, sizeof(b), "%.16e", v.f); break;
	case 2: snprintf(b, sizeof(b), "%.20E", v.f); break;
	case 3: if (fabs(v.f) < 1e15) snprintf(b, sizeof(b), "%.25f", v.f); else snprintf(b, sizeof(b), "%.17e", v.f); break;
	default: snprintf(b, sizeof(b), "%.3e", v.f); break;
	}
	std::string s = b;
	if (s.find_first_of(".eE") == std::string::npos) s += r.coin() ? ".0" : r.coin() ? "e0" : "E+00";
	size_t e = s.find_first_of("eE");
	if (e != std::string::npos && r.coin()) { if (s[e + 1] == '+') s.erase(e + 1, 1); }
	v.f = strtod(s.c_str(), 0);
	if (!isfinite(v.f)) { s = "1.5"; v.f = 1.5; }
	o += s;
}
static void put(MV &v, Rng &r, std::string &o, int heavy) {
	switch (v.k) {
	case K_NULL: o += "null"; break;
	case K_BOOL: o += v.b ? "true" : "false"; break;
	case K_INT: case K_UINT: case K_FLOAT: put_number(v, r, o); break;
	case K_STR: put_string(v.s, r, o); break;
	case K_LIST:
		o += '['; ws(r, o, heavy);
		for (size_t i = 0; i < v.l.size(); ++i) { if (i) { o += ','; ws(r, o, heavy); } put(v.l[i], r, o, heavy); ws(r, o, heavy); }
		o += ']';
		break;
	case K_MAP: {
		o += '{'; ws(r, o, heavy);
		bool first = true;
		for (auto &x : v.m) { if (!first) { o += ','; ws(r, o, heavy); } first = false; put_string(x.first, r, o); ws(r, o, heavy); o += ':'; ws(r, o, heavy); put(x.second, r, o, heavy); ws(r, o, heavy); }
		o += '}';
		break;
	}
	default: break;
	}
}
static bool starts_nul(const MV &v) {
	if (v.k == K_STR) return !v.s.empty() && v.s[0] == 0;
	for (auto &x : v.l) if (starts_nul(x)) return true;
	for (auto &x : v.m) if (starts_nul(x.second)) return true;
	return false;
}

static bool lib(const std::string &t, MV &out, std::string &what) {
	try { out = from_variant(Deserialize(t, SERIALIZE_JSON)); return true; }
	catch (const std::exception &e) { what = e.what(); return false; }
}
static MV document(Rng &r, bool small) {
	Gen g;
	g.blobs = false;
	g.nul = r.chance(1, 4);
	if (small) { g.max_depth = 3; g.max_items = 3; g.big_strings = false; }
	MV v = gen_container(r, g);
	return v;
}

static void accept(Rng &r) {
	MV v = document(r, false);
	if (r.chance(1, 40)) {          // deep nesting
		MV x = r.coin() ? MV::Int(7) : MV::List();
		for (int d = r.range(50, 400); d > 0; --d) { MV y; if (r.coin()) { y = MV::List(); y.l.push_back(x); } else { y = MV::Map(); y.m["k"] = x; } x = y; }
		v = x;
		count("deep-nesting");
	}
	if (starts_nul(v) || !all_utf8(v)) return;
	std::string t;
	int heavy = r.below(3);
	ws(r, t, heavy);
	put(v, r, t, heavy);
	ws(r, t, heavy);
	describe(printable(t, 2000));
	MV got;
	std::string what;
	VH_CHECK(lib(t, got, what), "valid-json-refused", printable(t, 600), " : ", what);
	std::string d = diff(v, got);
	VH_CHECK(d.empty(), "valid-json-misread", d, " in ", printable(t, 600));
	count("accepted");
	nontrivial(hash(t));
	sample(printable(t, 300));
	if (r.chance(1, 8) && t.size() < 400) {
		// every proper prefix that does not hold the whole top-level value
		size_t end = t.find_last_of("]}");
		for (size_t i = 0; i <= end; ++i) {
			std::string p = t.substr(0, i);
			describe(printable(p, 2000));
			VH_CHECK(!lib(p, got, what), "truncated-json-accepted", printable(p, 600), " gave ", show(got, 200));
			count("truncation-refused");
		}
	}
}

// A number written in every notation.
static void numbers(Rng &r) {
	std::string t = "[";
	std::vector<MV> want;
	int n = r.range(1, 6);
	for (int i = 0; i < n; ++i) {
		std::string s;
		if (r.coin()) s += '-';
		if (r.chance(1, 3)) s += '0';
		else { s += (char)('1' + r.below(9)); for (int k = r.below(r.chance(1, 4) ? 30 : 5); k > 0; --k) s += (char)('0' + r.below(10)); }
		bool fl = false;
		if (r.coin()) { fl = true; s += '.'; for (int k = r.range(1, r.chance(1, 4) ? 30 : 4); k > 0; --k) s += (char)('0' + r.below(10)); }
		if (r.coin()) { fl = true; s += r.coin() ? 'e' : 'E'; if (r.coin()) s += r.coin() ? '+' : '-'; for (int k = r.range(1, 3); k > 0; --k) s += (char)('0' + r.below(10)); }
		if (r.chance(1, 8)) { fl = false; static const char *e[] = { "9223372036854775807", "-9223372036854775808", "18446744073709551615", "9223372036854775808", "0", "-1", "-0", "18446744073709551616", "-9223372036854775809", "99999999999999999999", "-18446744073709551616" }; s = r.pick(e); }
		double d = strtod(s.c_str(), 0);
		if (!isfinite(d)) { s = "0.25"; fl = true; d = 0.25; }
		if (fabs(d) < 1e-290 && d != 0) { s = "0.5"; fl = true; d = 0.5; }      // near the smallest numbers the last bit is up to the C library
		errno = 0;
		if (!fl) { if (s[0] == '-') strtoll(s.c_str(), 0, 10); else strtoull(s.c_str(), 0, 10); if (errno) { fl = true; count("beyond-64-bits"); } }
		MV v;
		if (fl) v = MV::Float(d);
		else if (s[0] == '-') v = MV::Int(strtoll(s.c_str(), 0, 10));
		else v = MV::Uint(strtoull(s.c_str(), 0, 10));
		want.push_back(v);
		if (i) t += ',';
		t += s;
	}
	t += "]";
	describe(t);
	MV got;
	std::string what;
	VH_CHECK(lib(t, got, what), "valid-number-refused", t, " : ", what);
	MV w = MV::List();
	w.l = want;
	std::string d = diff(w, got);
	VH_CHECK(d.empty(), "number-misread", d, " in ", t);
	count("numbers");
	nontrivial(hash(t));
}

static void corrupt(Rng &r) {
	MV v = document(r, true);
	if (starts_nul(v) || !all_utf8(v)) return;
	std::string t;
	put(v, r, t, r.below(2));
	static const char *toks[] = { ",", ":", "[", "]", "{", "}", "\"", "\\", "null", "tru", "-", "+", ".", "e", "0", "01", "1", "'", "nul", "//", "/*", "x", "\\x", "\\u12", "\x01", " ", "1.", ".5", "--1", "1e", "Infinity", "NaN", "\xff", "#", "\n", ",,", "\"a\"", "[]", "True", "1e+", "\t\"" };
	int n = r.chance(1, 4) ? 2 : 1;
	while (n-- > 0) {
		size_t at = r.below(t.size() + 1);
		switch (r.below(5)) {
		case 0: if (at < t.size()) t.erase(at, 1 + r.below(3)); break;
		case 1: if (at < t.size()) t[at] = r.coin() ? (char)r.below(128) : r.pick(toks)[0]; break;
		case 2: t.insert(at, r.pick(toks)); break;
		case 3: if (at < t.size()) { size_t b = r.below(t.size()); std::swap(t[at], t[b]); } break;
		default: if (at < t.size()) t = t.substr(0, at); break;
		}
	}
	describe(printable(t, 1500));
	Sax ref;
	bool valid = false;
	try { valid = nlohmann::json::sax_parse(t.begin(), t.end(), &ref, nlohmann::json::input_format_t::json, false) && ref.done; } catch (...) { valid = false; }
	MV got;
	std::string what;
	bool acc = lib(t, got, what);
	if (!utf8_ok(t)) { count("unjudged"); return; }
	if (valid && ref.root.k != K_LIST && ref.root.k != K_MAP) {
		// a scalar at the top is not this parser's business, but must not turn into a document
		count("unjudged");
		return;
	}
	if (!valid) {
		if (lone_surrogate_possible(t) || ref.error.find("out_of_range") != std::string::npos) { count("unjudged"); return; }
		if (acc) {
			std::string x = without_extensions(t);
			Sax again;
			bool ok = false;
			try { ok = nlohmann::json::sax_parse(x.begin(), x.end(), &again, nlohmann::json::input_format_t::json, false) && again.done; } catch (...) { ok = false; }
			if (ok || again.error.find("out_of_range") != std::string::npos) { count("tolerated-extension"); return; }
		}
		VH_CHECK(!acc, "invalid-json-accepted", printable(t, 600), " gave ", show(got, 200), " (independent reader: ", ref.error, ")");
		count("corruption-refused");
	} else {
		if (ref.big || starts_nul(ref.root)) { count("unjudged"); return; }
		VH_CHECK(acc, "valid-json-refused", printable(t, 600), " : ", what);
		if (!ref.dup) { std::string d = diff(ref.root, got); VH_CHECK(d.empty(), "valid-json-misread", d, " in ", printable(t, 600)); }
		count("corruption-still-valid");
	}
	nontrivial(hash(t));
}

static void one(Ctx &c) {
	switch (c.rng.below(8)) {
	case 0: case 1: accept(c.rng); break;
	case 2: numbers(c.rng); break;
	default: corrupt(c.rng);
	}
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
