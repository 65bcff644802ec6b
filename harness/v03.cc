// V03: typed reads convert exactly or raise, and never change the value.
#include "model.h"
#include <math.h>
#include <limits>
#include <complex>
using namespace vh;
using namespace libvariant;

typedef __int128 I;
static std::string istr(I v) {
	if (!v) return "0";
	bool n = v < 0;
	std::string s;
	while (v) { int d = (int)(v % 10); s.insert(s.begin(), (char)('0' + (d < 0 ? -d : d))); v /= 10; }
	return n ? "-" + s : s;
}

enum R { VALUE, RAISED, WRONG_ERROR };
// Conversion failures are the library's type and conversion errors.
template<typename T> R read(const std::function<T()> &f, T &out, std::string &what) {
	try { out = f(); return VALUE; }
	catch (const UnableToConvertError &e) { what = e.what(); return RAISED; }
	catch (const UnexpectedTypeError &e) { what = e.what(); return RAISED; }
	catch (const TypeNotIndexableError &e) { what = e.what(); return RAISED; }
	catch (const NotNumericTypeError &e) { what = e.what(); return RAISED; }
	catch (const InvalidOperationError &e) { what = e.what(); return RAISED; }
	catch (const std::exception &e) { what = e.what(); return WRONG_ERROR; }
}

// What a typed read must give.
struct Want {
	enum { MUST_RAISE, EXACT, FREE } k;
	I i; long double f;
};

static Want want_int(const MV &v, I lo, I hi) {
	Want w;
	w.f = 0; w.i = 0;
	w.k = Want::EXACT;
	switch (v.k) {
	case K_NULL: return w;
	case K_BOOL: w.i = v.b; break;
	case K_INT: w.i = v.i; break;
	case K_UINT: w.i = v.u; break;
	case K_FLOAT:
		if (!(v.f > -1.8e19 && v.f < 1.9e19)) { w.k = Want::FREE; return w; }
		w.i = (I)v.f;               // toward zero
		break;
	default: w.k = Want::MUST_RAISE; return w;
	}
	if (w.i < lo || w.i > hi) w.k = Want::FREE;
	return w;
}

template<typename T> void check_int(const Variant &v, const MV &m, const char *name, const std::function<T()> &f) {
	Want w = want_int(m, std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
	if (w.k == Want::FREE) { count("not-representable"); return; }
	T got = 0;
	std::string what;
	R r = read<T>(f, got, what);
	if (w.k == Want::MUST_RAISE) {
		VH_CHECK(r == RAISED, std::string("no-conversion-error:") + name, show(m), " read as ", name, r == VALUE ? " gave a value" : " raised another error: ", what);
		count("raised");
	} else {
		VH_CHECK(r == VALUE, std::string("conversion-refused:") + name, show(m), " read as ", name, " raised ", what);
		VH_CHECK((I)got == w.i, std::string("wrong-value:") + name, show(m), " read as ", name, " gave ", istr((I)got), " expected ", istr(w.i));
		count("integer-read");
	}
}

template<typename T> void check_float(const MV &m, const char *name, const std::function<T()> &f) {
	long double want = 0;
	bool must_raise = false;
	switch (m.k) {
	case K_NULL: break;
	case K_BOOL: want = m.b; break;
	case K_INT: want = m.i; break;
	case K_UINT: want = m.u; break;
	case K_FLOAT: want = m.f; break;
	default: must_raise = true;
	}
	if (sizeof(T) == 4 && fabsl(want) > std::numeric_limits<float>::max()) return;
	T got = 0;
	std::string what;
	R r = read<T>(f, got, what);
	if (must_raise) {
		VH_CHECK(r == RAISED, std::string("no-conversion-error:") + name, show(m), " read as ", name, r == VALUE ? " gave a value" : " raised another error: ", what);
		count("raised");
		return;
	}
	VH_CHECK(r == VALUE, std::string("conversion-refused:") + name, show(m), " raised ", what);
	T w = (T)want;
	VH_CHECK(got == w || (got != got && w != w), std::string("wrong-value:") + name, show(m), " read as ", name, " gave ", cat((double)got), " expected ", cat((double)w));
	count("float-read");
}

static void check_numbers(const Variant &v, const MV &m) {
	check_int<intmax_t>(v, m, "AsInt", [&]() { return v.AsInt(); });
	check_int<uintmax_t>(v, m, "AsUnsigned", [&]() { return v.AsUnsigned(); });
	check_int<char>(v, m, "As<char>", [&]() { return v.As<char>(); });
	check_int<signed char>(v, m, "As<signed char>", [&]() { return v.As<signed char>(); });
	check_int<unsigned char>(v, m, "As<unsigned char>", [&]() { return v.As<unsigned char>(); });
	check_int<short>(v, m, "As<short>", [&]() { return v.As<short>(); });
	check_int<unsigned short>(v, m, "As<unsigned short>", [&]() { return v.As<unsigned short>(); });
	check_int<int>(v, m, "As<int>", [&]() { return v.As<int>(); });
	check_int<unsigned>(v, m, "As<unsigned>", [&]() { return v.As<unsigned>(); });
	check_int<long>(v, m, "As<long>", [&]() { return v.As<long>(); });
	check_int<unsigned long>(v, m, "As<unsigned long>", [&]() { return v.As<unsigned long>(); });
	check_int<long long>(v, m, "As<long long>", [&]() { return v.As<long long>(); });
	check_int<unsigned long long>(v, m, "As<unsigned long long>", [&]() { return v.As<unsigned long long>(); });
	check_int<int>(v, m, "variant_cast<int>", [&]() { return variant_cast<int>(v); });
	check_int<int64_t>(v, m, "AsNumber<int64_t>", [&]() { return v.AsNumber<int64_t>(); });
	check_int<unsigned>(v, m, "AsNumber<unsigned>", [&]() { return v.AsNumber<unsigned>(); });
	check_float<float>(m, "As<float>", [&]() { return v.As<float>(); });
	check_float<double>(m, "AsDouble", [&]() { return v.AsDouble(); });
	check_float<double>(m, "As<double>", [&]() { return v.As<double>(); });
	check_float<long double>(m, "AsLongDouble", [&]() { return v.AsLongDouble(); });
}

template<typename T> void must_raise(const MV &m, const char *name, const std::function<T()> &f) {
	std::string what;
	T out = T();
	R r = read<T>(f, out, what);
	VH_CHECK(r == RAISED, std::string("no-conversion-error:") + name, show(m), " read as ", name, r == VALUE ? " gave a value" : " raised another error: ", what);
	count("raised");
}

static void check_other(const Variant &v, const MV &m) {
	std::string what;
	// bool
	{
		bool got = false;
		R r = read<bool>([&]() { return v.AsBool(); }, got, what);
		bool got2 = false;
		R r2 = read<bool>([&]() { return v.As<bool>(); }, got2, what);
		VH_CHECK(r == r2 && got == got2, "wrong-value:As<bool>", show(m));
		bool w = false, has = true;
		switch (m.k) {
		case K_NULL: w = false; break;
		case K_BOOL: w = m.b; break;
		case K_INT: w = m.i != 0; break;
		case K_UINT: w = m.u != 0; break;
		case K_FLOAT: w = m.f != 0; break;
		case K_STR: break;
		default: has = false;
		}
		if (m.k != K_STR) {
			if (!has) VH_CHECK(r == RAISED, "no-conversion-error:AsBool", show(m), " ", what);
			else VH_CHECK(r == VALUE && got == w, "wrong-value:AsBool", show(m), " gave ", got, " ", what);
			count("bool-read");
		}
		VH_CHECK(v.IsTrue() == (m.k == K_BOOL && m.b) && v.IsFalse() == (m.k == K_BOOL && !m.b), "wrong-value:IsTrue", show(m));
	}
	// string
	{
		std::string got;
		R r = read<std::string>([&]() { return v.AsString(); }, got, what);
		switch (m.k) {
		case K_NULL: VH_CHECK(r == VALUE && got == "", "wrong-value:AsString", show(m), " gave ", printable(got), what); break;
		case K_BOOL: VH_CHECK(r == VALUE && got == (m.b ? "true" : "false"), "wrong-value:AsString", show(m), " gave ", printable(got), what); break;
		case K_INT: VH_CHECK(r == VALUE && got == istr(m.i), "wrong-value:AsString", show(m), " gave ", printable(got), what); break;
		case K_UINT: VH_CHECK(r == VALUE && got == istr(m.u), "wrong-value:AsString", show(m), " gave ", printable(got), what); break;
		case K_FLOAT: {
			VH_CHECK(r == VALUE, "conversion-refused:AsString", show(m), " ", what);
			if (isfinite(m.f)) {
				double back = strtod(got.c_str(), 0);
				VH_CHECK(fabsl((long double)back - m.f) <= fabsl((long double)m.f) * 1e-5L + 1e-320L, "wrong-value:AsString", show(m), " gave ", printable(got));
			}
			break;
		}
		case K_STR: VH_CHECK(r == VALUE && got == m.s && v.As<std::string>() == m.s, "wrong-value:AsString", show(m), " gave ", printable(got), what); break;
		default: VH_CHECK(r == RAISED, "no-conversion-error:AsString", show(m), " ", what);
		}
		count("string-read");
	}
	// containers, as const and as C++ containers
	if (m.k == K_LIST) {
		const Variant::List &l = v.AsList();
		VH_CHECK(l.size() == m.l.size() && v.Size() == m.l.size(), "wrong-value:AsList", show(m));
		std::vector<Variant> vv = v.As<std::vector<Variant> >();
		VH_CHECK(vv.size() == m.l.size(), "wrong-value:As<vector<Variant>>", show(m));
		for (size_t i = 0; i < vv.size(); ++i) VH_CHECK(same(from_variant(vv[i]), m.l[i]), "wrong-value:As<vector<Variant>>", show(m));
		count("container-read");
	} else must_raise<int>(m, "AsList", [&]() { return (int)v.AsList().size(); });
	if (m.k == K_MAP) {
		const Variant::Map &l = v.AsMap();
		VH_CHECK(l.size() == m.m.size() && v.Size() == m.m.size(), "wrong-value:AsMap", show(m));
		std::map<std::string, Variant> mm = v.As<std::map<std::string, Variant> >();
		VH_CHECK(mm.size() == m.m.size(), "wrong-value:As<map>", show(m));
		for (auto &x : m.m) VH_CHECK(mm.count(x.first) && same(from_variant(mm[x.first]), x.second), "wrong-value:As<map>", show(m), " at ", printable(x.first));
		count("container-read");
	} else must_raise<int>(m, "AsMap", [&]() { return (int)v.AsMap().size(); });
	if (m.k == K_BLOB) {
		VH_CHECK(blob_bytes(v.AsBlob()) == m.s, "wrong-value:AsBlob", show(m));
		VH_CHECK(v.Size() == m.s.size(), "wrong-value:Size", show(m), " size ", v.Size());
	} else must_raise<int>(m, "AsBlob", [&]() { ConstBlobPtr b = v.AsBlob(); return 0; });
	if (m.k == K_STR) VH_CHECK(v.Size() == m.s.size() && v.Empty() == m.s.empty(), "wrong-value:Size", show(m));
	if (m.k == K_BOOL || m.isnum()) must_raise<int>(m, "Size", [&]() { return (int)v.Size(); });
	// type queries
	Kind k = m.k;
	VH_CHECK(v.IsNull() == (k == K_NULL) && v.IsBool() == (k == K_BOOL) && v.IsInt() == (k == K_INT) && v.IsUnsigned() == (k == K_UINT) && v.IsFloat() == (k == K_FLOAT)
		&& v.IsNumber() == m.isnum() && v.IsString() == (k == K_STR) && v.IsList() == (k == K_LIST) && v.IsMap() == (k == K_MAP) && v.IsBlob() == (k == K_BLOB), "wrong-type-query", show(m));
}

// Numeric text.
static void numeric_text(Rng &r) {
	std::string what;
	I val;
	switch (r.below(4)) {
	case 0: val = gen_int(r); break;
	case 1: val = gen_uint(r); break;
	case 2: val = (I)r.range(-1000, 1000); break;
	default: val = (r.coin() ? (I)INT64_MAX : r.coin() ? (I)UINT64_MAX : (I)INT64_MIN) + r.range(-3, 3); break;
	}
	std::string s = istr(val);
	if (r.chance(1, 8) && val >= 0) s = "+" + s;
	if (r.chance(1, 8)) s = (val < 0 ? "-" : "") + std::string("000") + istr(val < 0 ? -val : val);
	describe("text " + s);
	const Variant v(s);
	intmax_t si = 0; uintmax_t ui = 0; double d = 0;
	R a = read<intmax_t>([&]() { return v.AsInt(); }, si, what);
	if (val >= INT64_MIN && val <= INT64_MAX) VH_CHECK(a == VALUE && (I)si == val, "wrong-value:text-as-int", s, " gave ", istr(si), " ", what);
	else VH_CHECK(a == RAISED, "no-conversion-error:text-as-int", s, " out of range gave ", istr(si), " ", what);
	if (val >= 0) {
		R b = read<uintmax_t>([&]() { return v.AsUnsigned(); }, ui, what);
		if (val <= (I)UINT64_MAX) VH_CHECK(b == VALUE && (I)ui == val, "wrong-value:text-as-unsigned", s, " gave ", istr(ui), " ", what);
		else VH_CHECK(b == RAISED, "no-conversion-error:text-as-unsigned", s, " out of range gave ", istr(ui), " ", what);
	}
	R c = read<double>([&]() { return v.AsDouble(); }, d, what);
	VH_CHECK(c == VALUE && d == (double)(long double)val, "wrong-value:text-as-double", s, " gave ", d, " ", what);
	if (val >= -100 && val <= 100) VH_CHECK(v.As<signed char>() == (int)val && v.As<short>() == (int)val && v.As<int>() == (int)val, "wrong-value:text-as-small", s);
	// and the printed form of the number reads back
	Variant n = val < 0 ? Variant((long long)(val < INT64_MIN ? INT64_MIN : val)) : val > INT64_MAX ? Variant((unsigned long long)(val > (I)UINT64_MAX ? UINT64_MAX : (uint64_t)val)) : Variant((long long)val);
	Variant t(n.AsString());
	if (n.IsUnsigned()) VH_CHECK(t.AsUnsigned() == n.AsUnsigned(), "printed-form-differs", s);
	else VH_CHECK(t.AsInt() == n.AsInt(), "printed-form-differs", s);
	// decimal fractions
	double f = gen_double(r, false);
	char buf[64];
	snprintf(buf, sizeof(buf), r.coin() ? "%.17g" : "%.20e", f);
	const Variant tf((std::string(buf)));
	double back = 0;
	if (fabs(f) > 1e-300 || f == 0) {
		R e = read<double>([&]() { return tf.AsDouble(); }, back, what);
		VH_CHECK(e == VALUE && back == f, "wrong-value:text-as-double", buf, " gave ", bits(back), " expected ", bits(f), " ", what);
	}
	count("numeric-text");
	nontrivial(hash(s));
	nontrivial(hash(buf));
	VH_CHECK(v.AsString() == s && tf.AsString() == buf, "read-changed-value", s);
}

static void other_text(Rng &r) {
	static const char *no[] = { "no", "false", "0", "00", "n", "f", "fal" };
	static const char *yes[] = { "yes", "true", "1", "01", "on", "none", "nothing", "falsely", "false hope", "no way", "0.5", "007", "00x", "" };
	bool truth = r.coin();
	std::string s = truth ? r.pick(yes) : r.pick(no);
	for (auto &ch : s) if (r.coin()) ch = toupper(ch);
	if (r.chance(1, 4)) s = " " + s;
	if (r.chance(1, 4)) s += "\t";
	describe("text " + s);
	const Variant v(s);
	VH_CHECK(v.AsBool() == truth && v.As<bool>() == truth, "wrong-value:text-as-bool", printable(s), " gave ", v.AsBool());
	VH_CHECK(v.AsString() == s && v.IsString(), "read-changed-value", s);
	count("boolean-text");
	nontrivial(hash(s));
	// text that holds no number
	Gen g;
	std::string t = gen_string(r, g);
	while (!t.empty() && isspace((unsigned char)t[0])) t.erase(0, 1);
	char c0 = t.empty() ? 'x' : t[0];
	if (!(isdigit((unsigned char)c0) || c0 == '+' || c0 == '-' || c0 == '.' || tolower(c0) == 'i' || tolower(c0) == 'n')) {
		describe("text " + t);
		MV m = MV::Str(t);
		const Variant x(t);
		must_raise<intmax_t>(m, "text-as-int", [&]() { return x.AsInt(); });
		must_raise<uintmax_t>(m, "text-as-unsigned", [&]() { return x.AsUnsigned(); });
		must_raise<double>(m, "text-as-double", [&]() { return x.AsDouble(); });
		must_raise<int>(m, "text-as<int>", [&]() { return x.As<int>(); });
		must_raise<float>(m, "text-as<float>", [&]() { return x.As<float>(); });
		VH_CHECK(x.AsString() == t, "read-changed-value", printable(t));
		count("non-numeric-text");
		nontrivial(hash(t));
	}
}

// Reads of whole documents into C++ containers, and lookups into variables.
// Complex numbers are written as a number, a list of up to two numbers or a map of "real" and "imag".
template <class T> static void complex_of(Rng &r) {
	int re = r.range(-1000, 1000), im = r.range(-1000, 1000), form = r.below(7);
	Variant v;
	switch (form) {
	case 0: im = 0; v = re; break;
	case 1: im = 0; v = Variant::ListType; v.Append(re); break;
	case 2: v = Variant::ListType; v.Append(re); v.Append((double)im); break;
	case 3: v = Variant::MapType; v["real"] = (double)re; v["imag"] = im; break;
	case 4: re = 0; v = Variant::MapType; v["imag"] = im; break;
	case 5: im = 0; v = Variant::MapType; v["real"] = re; break;
	default: re = im = 0; if (r.coin()) v = r.coin() ? Variant::ListType : Variant::MapType;
	}
	const Variant cv = v;
	MV m = from_variant(cv);
	std::complex<T> z = cv.As<std::complex<T> >();
	VH_CHECK(z == std::complex<T>(re, im), "wrong-value:complex", show(m), " gave ", (double)z.real(), " ", (double)z.imag());
	VH_CHECK(same(from_variant(cv), m), "read-changed-value", show(m), " as complex");
	bool raised = false;
	try { Variant(r.coin() ? Variant("x y") : Variant(true)).As<std::complex<T> >(); } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "no-conversion-error:complex", "text or a boolean");
	count("complex");
}
static void complexes(Rng &r) {
	switch (r.below(3)) {
	case 0: complex_of<float>(r); break;
	case 1: complex_of<double>(r); break;
	default: complex_of<long double>(r);
	}
	// a value given as any of the number types is held as it is
	Variant v;
	long long i = r.next(); unsigned long long u = r.next(); long double f = (long double)(int64_t)r.next() / 1024;
	v = i; VH_CHECK(v.IsInt() && v.AsInt() == i && v.As<long long>() == i, "wrong-value:assigned", i);
	v = u; VH_CHECK(v.IsUnsigned() && v.AsUnsigned() == u && v.As<unsigned long long>() == u, "wrong-value:assigned", u);
	v = f; VH_CHECK(v.IsFloat() && v.AsLongDouble() == f && v.As<long double>() == f && v.As<double>() == (double)f, "wrong-value:assigned", (double)f);
	v = (long)i; VH_CHECK(v.IsInt() && v.As<long>() == (long)i, "wrong-value:assigned", i);
	v = (unsigned long)u; VH_CHECK(v.IsUnsigned() && v.As<unsigned long>() == (unsigned long)u, "wrong-value:assigned", u);
	v = (int)i; VH_CHECK(v.IsInt() && v.As<int>() == (int)i, "wrong-value:assigned", (int)i);
	v = (unsigned)u; VH_CHECK(v.IsUnsigned() && v.As<unsigned>() == (unsigned)u, "wrong-value:assigned", (unsigned)u);
	v = (double)f; VH_CHECK(v.IsFloat() && v.As<double>() == (double)f, "wrong-value:assigned", (double)f);
}

static void documents(Rng &r) {
	MV m = MV::List();
	std::vector<int64_t> want;
	std::map<std::string, int64_t> mwant;
	MV mm = MV::Map();
	bool bad = r.chance(1, 4);
	int n = r.below(8);
	size_t at = bad && n ? r.below(n) : (size_t)-1;
	for (int i = 0; i < n; ++i) {
		int x = r.range(-100000, 100000);
		MV e;
		switch (r.below(4)) {
		case 0: e = MV::Int(x); break;
		case 1: x = abs(x); e = MV::Uint(x); break;
		case 2: e = MV::Float(x); break;
		default: e = MV::Str(istr(x)); break;
		}
		if ((size_t)i == at) e = r.coin() ? MV::List() : MV::Map();
		m.l.push_back(e);
		want.push_back(x);
		std::string k = cat("k", i);
		mm.m[k] = e;
		mwant[k] = x;
	}
	describe(show(m));
	Variant v = to_variant(m), mv = to_variant(mm);
	const Variant &cv = v, &cm = mv;
	std::string what;
	std::vector<long long> got;
	std::map<std::string, long long> mgot;
	R a = read<std::vector<long long> >([&]() { return cv.As<std::vector<long long> >(); }, got, what);
	R b = read<std::map<std::string, long long> >([&]() { return cm.As<std::map<std::string, long long> >(); }, mgot, what);
	if (at != (size_t)-1) {
		VH_CHECK(a == RAISED && b == RAISED, "no-conversion-error:As<vector>", show(m));
		count("bad-element");
	} else {
		VH_CHECK(a == VALUE && std::vector<int64_t>(got.begin(), got.end()) == want, "wrong-value:As<vector>", show(m), " ", what);
		std::map<std::string, int64_t> g2(mgot.begin(), mgot.end());
		VH_CHECK(b == VALUE && g2 == mwant, "wrong-value:As<map>", show(mm), " ", what);
		std::vector<double> dv = cv.As<std::vector<double> >();
		std::vector<std::vector<int> > nested = Variant(Variant::List(3, v)).As<std::vector<std::vector<int> > >();
		VH_CHECK(nested.size() == 3 && dv.size() == want.size(), "wrong-value:As<vector>", show(m));
		for (size_t i = 0; i < want.size(); ++i) VH_CHECK(dv[i] == want[i] && nested[0][i] == want[i] && nested[2][i] == want[i], "wrong-value:As<vector>", show(m), " at ", i);
		// building from the containers gives the same numbers back
		Variant built(got), mbuilt(mgot);
		VH_CHECK(built.As<std::vector<long long> >() == got && (mbuilt.As<std::map<std::string, long long> >() == mgot), "container-round-trip", show(m));
		count("container-conversion");
	}
	// reading into a variable, present and absent
	for (auto &x : mwant) {
		const MV &e = mm.m[x.first];
		if (e.k == K_LIST || e.k == K_MAP) continue;
		int a1 = 7, a2 = 7, a3 = 7, a4 = 7;
		cm.GetInto(a1, x.first);
		cm.GetInto(a2, x.first, 99);
		cm.GetPathInto(a3, "/" + x.first);
		cm.GetPathInto(a4, "/" + x.first, 99);
		VH_CHECK(a1 == x.second && a2 == x.second && a3 == x.second && a4 == x.second, "wrong-value:GetInto", x.first, " gave ", a1, " ", a2, " ", a3, " ", a4);
	}
	int d = 1, d2 = 1;
	cm.GetInto(d, "absent", 42);
	cm.GetPathInto(d2, "/absent/deep", 43);
	VH_CHECK(d == 42 && d2 == 43, "wrong-value:GetInto-default", d, " ", d2);
	std::complex<double> z = Variant(m.l.size() > 1 && at == (size_t)-1 ? v : Variant(5)).As<std::complex<double> >();
	VH_CHECK(m.l.size() > 1 && at == (size_t)-1 ? z == std::complex<double>(want[0], want[1]) : z == std::complex<double>(5, 0), "wrong-value:complex", show(m));
	complexes(r);
	EqOpt eo; eo.exact_int_kind = true;
	VH_CHECK(same(from_variant(v), m, eo) && same(from_variant(mv), mm, eo), "read-changed-value", show(m));
	nontrivial(shape(m));
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	switch (r.below(6)) {
	case 0: numeric_text(r); break;
	case 1: other_text(r); break;
	case 2: documents(r); break;
	default: {
		Gen g;
		g.nonfinite = true;
		g.nul = true;
		g.max_depth = 2;
		MV m;
		if (r.chance(1, 4)) m = gen(r, g);
		else {
			m = gen_scalar(r, g);
			// values near the edges of the C types
			if (r.chance(1, 2)) {
				static const long long edges[] = { 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 9007199254740992ll, INT64_MAX };
				long long e = r.pick(edges);
				long long x = e == INT64_MAX ? e - r.below(3) : e + r.range(-2, 2);
				if (r.coin()) x = -x;
				m = r.chance(1, 3) ? MV::Float((double)x + (llabs(x) < 1000000 && r.coin() ? 0.5 : 0)) : x >= 0 && r.coin() ? MV::Uint(x) : MV::Int(x);
			}
		}
		describe(show(m));
		const Variant v = to_variant(m, r);
		if (m.k != K_STR) check_numbers(v, m);
		check_other(v, m);
		EqOpt eo; eo.exact_int_kind = true;
		std::string d = diff(m, from_variant(v), eo);
		VH_CHECK(d.empty(), "read-changed-value", d);
		// the same through a reference
		Variant own = to_variant(m);
		const VariantRef ref(own);
		if (m.k != K_STR) check_numbers(ref, m);
		check_other(ref, m);
		nontrivial(mix(shape(m), hash(show(m, 60))));
		sample(show(m, 300));
	}
	}
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
