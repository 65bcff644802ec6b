#include "model.h"
#include <math.h>
#include <limits>
#include <sys/uio.h>

using namespace libvariant;

namespace vh {

	std::string bits(double d) {
		char b[64];
		snprintf(b, sizeof(b), "%.17g", d);
		return b;
	}

	static const char *kname(Kind k) {
		static const char *n[] = { "null", "bool", "int", "uint", "float", "string", "list", "map", "blob" };
		return n[k];
	}

	static std::string scalar_text(const MV &v) {
		switch (v.k) {
		case K_NULL: return "null";
		case K_BOOL: return v.b ? "true" : "false";
		case K_INT: return cat("i:", v.i);
		case K_UINT: return cat("u:", v.u);
		case K_FLOAT: return "f:" + bits(v.f);
		case K_STR: return "\"" + printable(v.s, 300) + "\"";
		case K_BLOB: return cat("blob(", v.s.size(), "):") + printable(v.s, 100);
		default: return kname(v.k);
		}
	}

	std::string diff(const MV &a, const MV &b, const EqOpt &o, const std::string &path) {
		if (o.nonfinite_as_null && a.k == K_FLOAT && !std::isfinite(a.f) && b.k == K_NULL) return "";
		bool ints = (a.k == K_INT || a.k == K_UINT) && (b.k == K_INT || b.k == K_UINT) && !o.exact_int_kind;
		if (ints && a.k != b.k) {
			const MV &i = a.k == K_INT ? a : b, &u = a.k == K_INT ? b : a;
			if (i.i >= 0 && (uint64_t)i.i == u.u) return "";
			return path + ": " + scalar_text(a) + " vs " + scalar_text(b);
		}
		if (a.k != b.k) return path + ": " + scalar_text(a) + " vs " + scalar_text(b);
		switch (a.k) {
		case K_NULL: return "";
		case K_BOOL: if (a.b == b.b) return ""; break;
		case K_INT: if (a.i == b.i) return ""; break;
		case K_UINT: if (a.u == b.u) return ""; break;
		case K_FLOAT: if (a.f == b.f || (std::isnan(a.f) && std::isnan(b.f))) return ""; break;
		case K_STR: case K_BLOB: if (a.s == b.s) return ""; break;
		case K_LIST:
			if (a.l.size() != b.l.size()) return cat(path, ": list length ", a.l.size(), " vs ", b.l.size());
			for (size_t i = 0; i < a.l.size(); ++i) {
				std::string d = diff(a.l[i], b.l[i], o, cat(path, "[", i, "]"));
				if (!d.empty()) return d;
			}
			return "";
		case K_MAP: {
			std::map<std::string, MV>::const_iterator i = a.m.begin(), j = b.m.begin();
			for (; i != a.m.end() && j != b.m.end(); ++i, ++j) {
				if (i->first != j->first) return path + ": key \"" + printable(i->first, 80) + "\" vs \"" + printable(j->first, 80) + "\"";
				std::string d = diff(i->second, j->second, o, path + "/" + printable(i->first, 40));
				if (!d.empty()) return d;
			}
			if (i != a.m.end()) return path + ": missing key \"" + printable(i->first, 80) + "\"";
			if (j != b.m.end()) return path + ": extra key \"" + printable(j->first, 80) + "\"";
			return "";
		}
		}
		return path + ": " + scalar_text(a) + " vs " + scalar_text(b);
	}

	static void show_(const MV &v, std::string &o, size_t max) {
		if (o.size() > max) return;
		if (v.k == K_LIST) {
			o += "[";
			for (size_t i = 0; i < v.l.size(); ++i) { if (i) o += ", "; show_(v.l[i], o, max); }
			o += "]";
		} else if (v.k == K_MAP) {
			o += "{";
			bool first = true;
			for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) {
				if (!first) o += ", ";
				first = false;
				o += "\"" + printable(i->first, 80) + "\": ";
				show_(i->second, o, max);
			}
			o += "}";
		} else o += scalar_text(v);
	}
	std::string show(const MV &v, size_t max) {
		std::string o;
		show_(v, o, max);
		if (o.size() > max) o = o.substr(0, max) + "...";
		return o;
	}

	uint64_t shape(const MV &v) {
		uint64_t h = mix(17, v.k);
		switch (v.k) {
		case K_BOOL: h = mix(h, v.b); break;
		case K_INT: h = mix(h, v.i); break;
		case K_UINT: h = mix(h, v.u); break;
		case K_FLOAT: { uint64_t u; memcpy(&u, &v.f, 8); h = mix(h, u); break; }
		case K_STR: case K_BLOB: h = mix(h, hash(v.s)); break;
		case K_LIST: for (size_t i = 0; i < v.l.size(); ++i) h = mix(h, shape(v.l[i])); break;
		case K_MAP:
			for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) h = mix(mix(h, hash(i->first)), shape(i->second));
			break;
		default: break;
		}
		return h;
	}

	size_t nodes(const MV &v) {
		size_t n = 1;
		for (size_t i = 0; i < v.l.size(); ++i) n += nodes(v.l[i]);
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) n += nodes(i->second);
		return n;
	}
	int depth(const MV &v) {
		int d = 0;
		for (size_t i = 0; i < v.l.size(); ++i) d = std::max(d, depth(v.l[i]));
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) d = std::max(d, depth(i->second));
		return d + 1;
	}

	static void put_utf8(std::string &o, unsigned c) {
		if (c < 0x80) o += (char)c;
		else if (c < 0x800) { o += (char)(0xc0 | (c >> 6)); o += (char)(0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char)(0xe0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
		else { o += (char)(0xf0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
	}

	static unsigned gen_char(Rng &r, const Gen &g) {
		for (;;) {
			unsigned c;
			switch (r.below(12)) {
			case 0: case 1: case 2: case 3: c = 'a' + r.below(26); break;
			case 4: c = '0' + r.below(10); break;
			case 5: c = 0x20 + r.below(0x5f); break;
			case 6: { static const char sp[] = " \t\n\\/\"'{}[]:,#&*!|>%@`~-?.=_<;$()^"; c = sp[r.below(sizeof(sp) - 1)]; break; }
			case 7: if (!g.ctrl) continue; c = 1 + r.below(0x1f); break;
			case 8: if (!g.unicode) continue; c = 0x80 + r.below(0x780); break;
			case 9: if (!g.unicode) continue; c = 0x800 + r.below(0xf800 - 0x800); if (c >= 0xd800) c += 0x800; break;
			case 10: {
				if (!g.unicode) continue;
				static const unsigned edge[] = { 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x7ff, 0x800, 0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10ffff };
				c = r.pick(edge);
				break;
			}
			default: if (!g.unicode) continue; c = 0x10000 + r.below(0x100000); break;
			}
			if ((c & 0xfffe) == 0xfffe) continue;             // non-characters
			if (c >= 0xfdd0 && c <= 0xfdef) continue;
			if (g.xml_safe && (c == '\r' || (c < 0x20 && c != '\t' && c != '\n'))) continue;
			return c;
		}
	}

	std::string gen_utf8(Rng &r, const Gen &g) {
		size_t n;
		switch (r.below(10)) {
		case 0: n = 0; break;
		case 1: n = 1; break;
		case 2: n = g.big_strings ? 100 + r.below(60) : r.below(20); break;
		case 3: n = (g.big_strings && r.chance(1, 6)) ? 480 + r.below(80) : r.below(30); break;
		default: n = 1 + r.below(14); break;
		}
		if (g.big_strings && r.chance(1, 400)) n = 8000 + r.below(600);
		std::string o;
		bool plain = r.chance(1, 3);
		for (size_t i = 0; i < n; ++i) {
			if (plain) o += (char)('a' + r.below(26));
			else put_utf8(o, gen_char(r, g));
		}
		if (g.nul && r.chance(1, 10)) o.insert(r.below(o.size() + 1), 1, '\0');
		return o;
	}

	std::string gen_string(Rng &r, const Gen &g) {
		if (g.ambiguous && r.chance(1, 4)) {
			static const char *amb[] = { "", " ", "  ", "\n", "\t", "123", "-1", "+7", "0", "007", "0x1F", "0o17", "1e5", "1.5", ".5", "5.", "-.inf", ".inf", ".nan", ".NaN",
				"nan", "inf", "Infinity", "true", "True", "TRUE", "false", "yes", "no", "on", "off", "y", "n", "Y", "N", "null", "Null", "NULL", "~", "-", "--", "---", "...", "?", ":", "a: b", "a:b", "- x", "# c", "a #b",
				"[1]", "{a: 1}", "!tag", "&a", "*a", "|", ">", "%YAML", "@x", "`x", "'q'", "\"q\"", "18446744073709551615", "9223372036854775808", "-9223372036854775808", "99999999999999999999999",
				"1_000", "2001-01-01", "<<", "=", "<a>", "&amp;", "]]>", "<!--x-->", "a\n b", "a\n\nb", "\na", "a\n", "a\n\n", " a", "a ", "  a\n b", "a\tb", "\\", "\\n", "\\u0041", "/", "key", "BLOB", "\x01", "\x7f" };
			std::string s = r.pick(amb);
			if (g.xml_safe) for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 0x20 && s[i] != '\n' && s[i] != '\t') s[i] = 'c';
			if (!g.ctrl) for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] < 0x20 || s[i] == 0x7f) s[i] = 'c';
			return s;
		}
		return gen_utf8(r, g);
	}

	std::string gen_key(Rng &r, const Gen &g) {
		switch (r.below(6)) {
		case 0: case 1: case 2: return std::string(1, 'a' + r.below(6));
		case 3: { std::string s; int n = r.range(1, 10); for (int i = 0; i < n; ++i) s += (char)('a' + r.below(26)); return s; }
		default: return g.keys_any ? gen_string(r, g) : cat("k", r.below(1000));
		}
	}

	int64_t gen_int(Rng &r) {
		static const int64_t edge[] = { 0, 1, -1, 7, 8, 9, 10, 63, 64, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll,
			4294967295ll, 4294967296ll, 9007199254740992ll, 9007199254740993ll, -9007199254740993ll, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1 };
		switch (r.below(4)) {
		case 0: return r.pick(edge);
		case 1: return (int64_t)r.below(200) - 100;
		case 2: return (int64_t)r.next();
		default: return (int64_t)(r.next() >> r.below(64)) * (r.coin() ? 1 : -1);
		}
	}
	uint64_t gen_uint(Rng &r) {
		static const uint64_t edge[] = { 0, 1, 255, 256, 65535, 65536, 4294967295ull, 4294967296ull, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX, UINT64_MAX - 1, 9007199254740993ull };
		switch (r.below(4)) {
		case 0: return r.pick(edge);
		case 1: return r.below(200);
		case 2: return r.next();
		default: return r.next() >> r.below(64);
		}
	}
	double gen_double(Rng &r, bool nonfinite) {
		static const double edge[] = { 0.0, -0.0, 0.5, 1.0, -1.0, 1.5, 0.1, -0.1, 1e10, 1e15, 1e16, 1e17, 1e20, 123456789.123456789, 1e-5, 1e-4, 1e-7, 1e100, 1e300, -1e-300, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324,
			3.141592653589793, 9007199254740993.0, 4294967296.0, 100.0, 1e2, 5e-324, 0.30000000000000004, 1.0 / 3 };
		if (nonfinite && r.chance(1, 8)) {
			switch (r.below(3)) { case 0: return INFINITY; case 1: return -INFINITY; default: return NAN; }
		}
		for (;;) {
			double d;
			switch (r.below(5)) {
			case 0: d = r.pick(edge); break;
			case 1: d = (double)r.range(-1000, 1000) / (double)r.range(1, 64); break;
			case 2: { uint64_t u = r.next(); memcpy(&d, &u, 8); break; }
			case 3: d = (double)(int64_t)(r.next() >> r.below(64)); break;
			default: d = ldexp((double)r.below(1 << 20), r.range(-40, 40)) * (r.coin() ? 1 : -1); break;
			}
			if (std::isfinite(d)) return d;
		}
	}
	std::string gen_bytes(Rng &r, size_t max, bool allow_empty) {
		size_t n = r.chance(1, 8) ? 0 : r.below(max + 1);
		if (r.chance(1, 4)) n = r.below(8);
		if (n > max) n = max;
		if (n == 0 && !allow_empty) n = 1;
		std::string s(n, 0);
		int mode = r.below(4);
		for (size_t i = 0; i < n; ++i) s[i] = mode == 0 ? 0 : mode == 1 ? (char)0xff : (char)r.next();
		return s;
	}

	MV gen_scalar(Rng &r, const Gen &g) {
		for (;;) {
			switch (r.below(10)) {
			case 0: if (!g.nulls) continue; return MV::Null();
			case 1: if (!g.bools) continue; return MV::Bool(r.coin());
			case 2: case 3: return MV::Int(gen_int(r));
			case 4: if (!g.uints) continue; return MV::Uint(gen_uint(r));
			case 5: case 6: if (!g.floats) continue; return MV::Float(gen_double(r, g.nonfinite));
			case 7: if (!g.blobs) continue; return MV::Blob(gen_bytes(r, r.chance(1, 10) ? 700 : 40, g.empty_blob));
			default: return MV::Str(gen_string(r, g));
			}
		}
	}

	static thread_local int budget = 0;          // nodes left for the document being generated

	MV gen_container(Rng &r, const Gen &g, int d) {
		if (d == 0) budget = r.chance(1, 30) ? 400 : 60;
		int n = r.below(g.max_items + 1);
		if (n == 0 && !g.empty_containers) n = 1;
		if (r.chance(1, 60)) n = 20 + r.below(40);
		if (n > 1 && n > budget) n = budget > 1 ? budget : 1;
		budget -= n;
		if (r.coin()) {
			MV v = MV::List();
			for (int i = 0; i < n; ++i) v.l.push_back(gen(r, g, d + 1));
			return v;
		}
		MV v = MV::Map();
		for (int i = 0; i < n; ++i) v.m[gen_key(r, g)] = gen(r, g, d + 1);
		return v;
	}

	MV gen(Rng &r, const Gen &g, int d) {
		if (d == 0) budget = 60;
		if (d < g.max_depth && budget > 0 && r.chance(2, 5)) return gen_container(r, g, d);
		return gen_scalar(r, g);
	}

	MV gen_large(Rng &r, const Gen &g, int deepest) {
		MV v = r.coin() ? MV::List() : MV::Map();
		switch (r.below(6)) {
		case 0: {                                // many small values
			bool strings = r.coin();
			v = MV::List();
			for (int n = r.range(10000, 70000), i = 0; i < n; ++i) v.l.push_back(strings ? MV::Str(cat("s", i)) : MV::Int(i));
			return v;
		}
		case 1:                                  // many keys
			v = MV::Map();
			for (int n = r.range(5000, 20000), i = 0; i < n; ++i) v.m[cat("k", r.next() % 1000000)] = MV::Int(i);
			return v;
		case 2:                                  // many containers
			v = MV::List();
			for (int n = r.range(22000, 30000), i = 0; i < n; ++i) {
				MV x = r.coin() ? MV::List() : MV::Map();
				if (!g.empty_containers || r.chance(1, 4)) { if (x.k == K_LIST) x.l.push_back(MV::Int(i)); else x.m["k"] = MV::Int(i); }
				v.l.push_back(x);
			}
			return v;
		case 3: {                                // a long string or key
			std::string s;
			bool plain = r.coin();
			for (size_t n = r.range(65000, 200000); s.size() < n;) { if (plain) s += (char)('a' + r.below(26)); else s += gen_utf8(r, g); }
			if (v.k == K_LIST) v.l.push_back(MV::Str(s));
			else if (r.coin()) v.m[s] = MV::Int(1);
			else v.m["k"] = MV::Str(s);
			return v;
		}
		case 4: {                                // much binary data
			std::string s;
			for (size_t n = r.range(65000, 200000); s.size() < n;) s += (char)r.next();
			MV x = g.blobs ? MV::Blob(s) : MV::Str(std::string(s.size(), 'x'));
			if (v.k == K_LIST) v.l.push_back(x); else v.m["k"] = x;
			return v;
		}
		default:
			v = gen_container(r, g);
			for (int n = r.range(deepest / 2, deepest); n > 0; --n) {
				MV o = r.coin() ? MV::List() : MV::Map();
				if (o.k == K_LIST) { o.l.push_back(MV()); std::swap(o.l[0], v); } else std::swap(o.m["k"], v);
				std::swap(v, o);
			}
			return v;
		}
	}

	BlobPtr make_blob(const std::string &bytes, Rng *r) {
		if (!r) return Blob::CreateCopy(bytes.data(), bytes.size());
		// split into malloc'ed segments owned by the blob
		std::vector<struct iovec> v;
		size_t off = 0;
		while (off < bytes.size() || v.empty()) {
			size_t n = r->chance(1, 12) ? 0 : 1 + r->below(bytes.size() - off + 1);
			if (n > bytes.size() - off) n = bytes.size() - off;
			struct iovec x;
			x.iov_base = malloc(n ? n : 1);
			x.iov_len = n;
			memcpy(x.iov_base, bytes.data() + off, n);
			v.push_back(x);
			off += n;
		}
		if (r->chance(1, 10)) {
			struct iovec x;
			x.iov_base = malloc(1);
			x.iov_len = 0;
			v.push_back(x);
		}
		return Blob::CreateFree(&v[0], v.size());
	}

	static Variant conv(const MV &v, Rng *r) {
		switch (v.k) {
		case K_NULL: return Variant();
		case K_BOOL: return Variant(v.b);
		case K_INT: return Variant((long long)v.i);
		case K_UINT: return Variant((unsigned long long)v.u);
		case K_FLOAT: return Variant(v.f);
		case K_STR: return Variant(v.s);
		case K_BLOB: return Variant(make_blob(v.s, r));
		case K_LIST: {
			Variant o = Variant::ListType;
			for (size_t i = 0; i < v.l.size(); ++i) o.Append(conv(v.l[i], r));
			return o;
		}
		case K_MAP: {
			Variant o = Variant::MapType;
			for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) o.Set(i->first, conv(i->second, r));
			return o;
		}
		}
		return Variant();
	}
	Variant to_variant(const MV &v) { return conv(v, 0); }
	Variant to_variant(const MV &v, Rng &r) { return conv(v, &r); }

	std::string blob_bytes(ConstBlobPtr b) {
		std::string s;
		if (!b) return s;
		for (unsigned i = 0; i < b->GetNumBuffers(); ++i) {
			if (b->GetLength(i)) s.append((const char *)b->GetPtr(i), b->GetLength(i));
		}
		return s;
	}

	static MV from_variant(const Variant &v, int depth, size_t &nodes) {
		if (depth > 5000 || ++nodes > 3000000) throw Fail("cyclic-value", "a value contains itself");
		switch (v.GetType()) {
		case Variant::NullType: return MV::Null();
		case Variant::BoolType: return MV::Bool(v.AsBool());
		case Variant::IntegerType: return MV::Int(v.AsInt());
		case Variant::UnsignedType: return MV::Uint(v.AsUnsigned());
		case Variant::FloatType: return MV::Float(v.AsDouble());
		case Variant::StringType: return MV::Str(v.AsString());
		case Variant::BlobType: return MV::Blob(blob_bytes(v.AsBlob()));
		case Variant::ListType: {
			MV o = MV::List();
			const Variant::List &l = v.AsList();
			for (Variant::List::const_iterator i = l.begin(); i != l.end(); ++i) o.l.push_back(from_variant(*i, depth + 1, nodes));
			return o;
		}
		case Variant::MapType: {
			MV o = MV::Map();
			const Variant::Map &m = v.AsMap();
			for (Variant::Map::const_iterator i = m.begin(); i != m.end(); ++i) o.m[i->first] = from_variant(i->second, depth + 1, nodes);
			return o;
		}
		default: break;
		}
		throw std::runtime_error("from_variant: unknown type");
	}
	MV from_variant(const Variant &v) {
		size_t nodes = 0;
		return from_variant(v, 0, nodes);
	}
}
