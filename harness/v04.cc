// V04: comparison and arithmetic agree with exact mathematics across number types.
#include "model.h"
#include <math.h>
using namespace vh;
using namespace libvariant;
typedef __int128 I;

// Exact order of two numbers: -1, 0, 1, or 2 when one of them is not a number.
static int cmp(const MV &a, const MV &b) {
	if (a.k == K_FLOAT && b.k == K_FLOAT) return a.f < b.f ? -1 : a.f > b.f ? 1 : a.f == b.f ? 0 : 2;
	if (a.k == K_FLOAT) { int x = cmp(b, a); return x == 2 ? 2 : -x; }
	I i = a.k == K_INT ? (I)a.i : (I)a.u;
	if (b.k == K_FLOAT) {
		if (b.f != b.f) return 2;
		if (b.f >= 1e20) return -1;
		if (b.f <= -1e20) return 1;
		I fl = (I)floor(b.f);
		if (i < fl) return -1;
		if (i > fl) return 1;
		return floor(b.f) == b.f ? 0 : -1;
	}
	I j = b.k == K_INT ? (I)b.i : (I)b.u;
	return i < j ? -1 : i > j;
}
static bool equal(const MV &a, const MV &b) {
	if (a.isnum() && b.isnum()) return cmp(a, b) == 0 || (a.k == K_FLOAT && b.k == K_FLOAT && a.f != a.f && b.f != b.f);
	if (a.k != b.k) return false;
	switch (a.k) {
	case K_NULL: return true;
	case K_BOOL: return a.b == b.b;
	case K_STR: case K_BLOB: return a.s == b.s;
	case K_LIST:
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!equal(a.l[i], b.l[i])) return false;
		return true;
	case K_MAP:
		if (a.m.size() != b.m.size()) return false;
		for (auto x = a.m.begin(), y = b.m.begin(); x != a.m.end(); ++x, ++y) if (x->first != y->first || !equal(x->second, y->second)) return false;
		return true;
	default: return false;
	}
}

static MV edge_number(Rng &r) {
	static const double fs[] = { 0, -0.0, 0.5, -0.5, 1, -1, 2, 3, 9223372036854775808.0, -9223372036854775808.0, 18446744073709551616.0, 9007199254740992.0, 9007199254740994.0, 1e300, -1e300, 4.9e-324, 18446744073709549568.0, 9223372036854774784.0 };
	switch (r.below(6)) {
	case 0: return MV::Int(r.coin() ? gen_int(r) : (int64_t)r.range(-6, 6));
	case 1: return MV::Uint(r.coin() ? gen_uint(r) : r.below(8));
	case 2: { static const int64_t e[] = { INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 9007199254740992ll, 9007199254740993ll, -9007199254740993ll }; return MV::Int(r.pick(e)); }
	case 3: { static const uint64_t e[] = { UINT64_MAX, UINT64_MAX - 1, (uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, 9007199254740993ull, 18446744073709549568ull }; return MV::Uint(r.pick(e)); }
	case 4: return MV::Float(r.pick(fs));
	default: return MV::Float(r.coin() ? gen_double(r, true) : r.range(-40, 40) / 8.0);
	}
}

// A value close to m: often equal, otherwise differing in one place.
static MV near(const MV &m, Rng &r) {
	MV o = m;
	switch (m.k) {
	case K_LIST:
		if (!o.l.empty() && r.coin()) { size_t i = r.below(o.l.size()); o.l[i] = near(o.l[i], r); }
		else if (r.chance(1, 3)) { if (!o.l.empty() && r.coin()) o.l.pop_back(); else o.l.push_back(MV::Null()); }
		return o;
	case K_MAP:
		if (!o.m.empty() && r.coin()) { auto i = o.m.begin(); std::advance(i, r.below(o.m.size())); i->second = near(i->second, r); }
		else if (!o.m.empty() && r.chance(1, 3)) { MV v = o.m.begin()->second; o.m.erase(o.m.begin()); if (r.coin()) o.m["zz"] = v; }
		return o;
	case K_STR: case K_BLOB:
		if (r.coin() && !o.s.empty()) o.s[r.below(o.s.size())] ^= 1;
		else if (r.chance(1, 3)) { if (r.coin()) o.s += (char)0; else if (!o.s.empty()) o.s.erase(o.s.size() - 1); }
		return o;
	case K_INT: if (r.coin()) { if (o.i >= 0) return MV::Uint(o.i); return MV::Float((double)o.i); } if (r.chance(1, 3) && o.i < INT64_MAX) ++o.i; return o;
	case K_UINT: if (r.coin()) { if (o.u <= (uint64_t)INT64_MAX) return MV::Int(o.u); return MV::Float((double)o.u); } if (r.chance(1, 3) && o.u) --o.u; return o;
	case K_FLOAT: if (r.coin() && o.f == floor(o.f) && fabs(o.f) < 9e18) return MV::Int((int64_t)o.f); return o;
	case K_BOOL: if (r.chance(1, 3)) return MV::Int(o.b); if (r.chance(1, 3)) o.b = !o.b; return o;
	case K_NULL: { static const int t[] = { 0, 1, 2, 3, 4 }; switch (r.pick(t)) { case 0: return MV::Bool(false); case 1: return MV::Int(0); case 2: return MV::Str(""); case 3: return MV::List(); default: return o; } }
	}
	return o;
}

static bool eq(const Variant &a, const Variant &b, const std::string &what) {
	bool e = a == b;
	VH_CHECK((a != b) == !e && (a.Compare(b) == 0) == e, "equality-inconsistent", what);
	return e;
}

static void compare(Rng &r) {
	Gen g;
	g.nonfinite = true; g.nul = true;
	g.max_depth = 3; g.max_items = 4;
	MV a, b, d;
	bool numbers = r.coin();
	if (numbers) { a = edge_number(r); b = r.coin() ? edge_number(r) : near(a, r); d = r.coin() ? edge_number(r) : near(b, r); }
	else { a = gen(r, g); b = r.chance(1, 8) ? gen(r, g) : near(a, r); d = near(b, r); }
	std::string what = show(a, 300) + " vs " + show(b, 300);
	describe(what);
	Variant va = to_variant(a, r), vb = to_variant(b, r), vd = to_variant(d, r);
	bool want = equal(a, b);
	VH_CHECK(eq(va, vb, what) == want, "equality-wrong", what, " equal: ", !want);
	VH_CHECK(eq(vb, va, what) == want, "equality-asymmetric", what);
	VH_CHECK(eq(va, va, what) && eq(vb, vb, what), "not-equal-to-itself", what);
	// through references, copies and shared handles
	const VariantRef ra(va), rb(vb);
	Variant outer(Variant::MapType);
	outer["x"] = vb;
	VH_CHECK(eq(ra, vb, what) == want && eq(va, rb, what) == want && eq(ra, rb, what) == want && eq(va, outer["x"], what) == want && eq(outer["x"], va, what) == want, "equality-through-reference", what);
	Variant ca = va.Copy(), cb = vb.Copy();
	VH_CHECK(eq(ca, va, what) && eq(ca, cb, what) == want && eq(va, cb, what) == want, "equality-of-copy", what);
	if (equal(b, d)) VH_CHECK(eq(va, vd, what) == want, "equality-intransitive", what, " vs ", show(d, 200));
	VH_CHECK(eq(va, vd, what) == equal(a, d), "equality-wrong", show(a, 300), " vs ", show(d, 300));
	if (a.isnum() && b.isnum()) {
		int w = cmp(a, b);
		if (w != 2) {
			VH_CHECK((va < vb) == (w < 0) && (va > vb) == (w > 0) && (va <= vb) == (w <= 0) && (va >= vb) == (w >= 0), "order-wrong", what);
			VH_CHECK((ra < rb) == (w < 0) && (rb < ra) == (w > 0), "order-through-reference", what);
		}
		VH_CHECK(va.Comparable(vb), "comparable-wrong", what);
		count("number-comparison");
	} else if (a.k == K_STR && b.k == K_STR) {
		int w = a.s.compare(b.s);
		VH_CHECK((va < vb) == (w < 0) && (va > vb) == (w > 0) && (rb > ra) == (w < 0), "order-wrong", what);
		count("text-comparison");
	} else if (a.k != b.k) {
		VH_CHECK(!va.Comparable(vb), "comparable-wrong", what);
		count("unrelated-types");
	} else count(want ? "equal-containers" : "different-containers");
	nontrivial(mix(hash(show(a, 200)), hash(show(b, 200))));
	sample(what);
}

static Variant num(const MV &m) { return to_variant(m); }

static void arithmetic(Rng &r) {
	MV a = edge_number(r), b = edge_number(r);
	if (r.chance(1, 2)) { a = r.coin() ? MV::Int(r.range(-100, 100)) : MV::Uint(r.below(200)); if (r.coin()) b = r.coin() ? MV::Int(r.range(-10, 10)) : MV::Uint(r.below(20)); }
	int op = r.below(5);
	const char *names[] = { "+", "-", "*", "/", "%" };
	Kind k = a.k == K_FLOAT || b.k == K_FLOAT ? K_FLOAT : a.k == K_UINT || b.k == K_UINT ? K_UINT : K_INT;
	std::string what = show(a) + " " + names[op] + " " + show(b);
	describe(what);
	MV want;
	want.k = k;
	long double wf = 0;
	bool ok = true;
	if (k == K_FLOAT) {
		long double x = a.k == K_FLOAT ? a.f : a.k == K_INT ? (long double)a.i : (long double)a.u;
		long double y = b.k == K_FLOAT ? b.f : b.k == K_INT ? (long double)b.i : (long double)b.u;
		switch (op) {
		case 0: wf = x + y; break;
		case 1: wf = x - y; break;
		case 2: wf = x * y; break;
		case 3: if (y == 0) return; wf = x / y; break;
		default: if (y == 0) return; wf = fmodl(x, y); break;
		}
	} else {
		I x = a.k == K_INT ? (I)a.i : (I)a.u, y = b.k == K_INT ? (I)b.i : (I)b.u, z = 0;
		I lo = k == K_INT ? (I)INT64_MIN : 0, hi = k == K_INT ? (I)INT64_MAX : (I)UINT64_MAX;
		if (x < lo || x > hi || y < lo || y > hi) ok = false;
		if ((op == 3 || op == 4) && y == 0) return;
		if (ok) {
			switch (op) {
			case 0: z = x + y; break;
			case 1: z = x - y; break;
			case 2: { long double p = (long double)x * (long double)y; if (fabsl(p) > 1e37L) { ok = false; break; } z = x * y; break; }
			case 3: z = x / y; break;
			default: z = x % y; if (k == K_INT && x == (I)INT64_MIN && y == -1) ok = false; break;
			}
		}
		if (ok && (z < lo || z > hi)) ok = false;
		if (!ok) { count("not-representable"); return; }
		if (k == K_INT) want.i = (int64_t)z; else want.u = (uint64_t)z;
	}
	auto check = [&](const Variant &got, const char *how) {
		VH_CHECK(got.IsFloat() == (k == K_FLOAT) && got.IsInt() == (k == K_INT) && got.IsUnsigned() == (k == K_UINT), "result-kind", what, " by ", how, " gave ", show(from_variant(got)));
		if (k == K_FLOAT) { long double g = got.AsLongDouble(); VH_CHECK(g == wf || (g != g && wf != wf), "result-wrong", what, " by ", how, " gave ", (double)g, " expected ", (double)wf); }
		else { EqOpt eo; eo.exact_int_kind = true; VH_CHECK(same(want, from_variant(got), eo), "result-wrong", what, " by ", how, " gave ", show(from_variant(got)), " expected ", show(want)); }
	};
	Variant va = num(a), vb = num(b);
	Variant ka = va, kb = vb;
	auto apply = [&](Variant &x, const Variant &y) { switch (op) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; default: x %= y; } };
	auto expr = [&](const Variant &x, const Variant &y) { switch (op) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x / y; default: return x % y; } };
	check(expr(va, vb), "operator");
	VH_CHECK(same(from_variant(va), a) && same(from_variant(vb), b), "operand-changed", what);
	Variant t = num(a);
	apply(t, vb);
	check(t, "assignment");
	// through references to elements
	Variant box(Variant::MapType);
	box["l"] = num(a);
	box["r"] = num(b);
	VariantRef l = box["l"], rr = box["r"];
	check(expr(l, rr), "references");
	apply(l, rr);
	check(box["l"], "assignment through references");
	VH_CHECK(same(from_variant(box["r"]), b), "operand-changed", what, " through references");
	VH_CHECK(same(from_variant(ka), a) && same(from_variant(kb), b), "operand-changed", what, " in an earlier copy");
	if (a.k == b.k && same(a, b)) { Variant s = num(a); apply(s, s); check(s, "with itself"); count("self-operand"); }
	count(k == K_FLOAT ? "float-arithmetic" : k == K_UINT ? "unsigned-arithmetic" : "integer-arithmetic");
	nontrivial(hash(what));
	sample(what);
}

static void unary(Rng &r) {
	MV a = edge_number(r);
	std::string what = show(a);
	describe(what);
	Variant v = num(a), keep = v;
	if (a.k == K_INT) {
		if (a.i < INT64_MAX) { Variant x = v; Variant old = x++; VH_CHECK(x.IsInt() && x.AsInt() == a.i + 1 && old.AsInt() == a.i, "increment-wrong", what); ++v; VH_CHECK(v.AsInt() == a.i + 1, "increment-wrong", what); --v; VH_CHECK(v.AsInt() == a.i, "decrement-wrong", what); }
		if (a.i > INT64_MIN) { Variant n = -v; VH_CHECK(n.IsInt() && n.AsInt() == -a.i, "negation-wrong", what); Variant x = v; Variant old = x--; VH_CHECK(x.AsInt() == a.i - 1 && old.AsInt() == a.i, "decrement-wrong", what); }
	} else if (a.k == K_UINT) {
		if (a.u < UINT64_MAX) { ++v; VH_CHECK(v.IsUnsigned() && v.AsUnsigned() == a.u + 1, "increment-wrong", what); --v; }
		if (a.u) { --v; VH_CHECK(v.IsUnsigned() && v.AsUnsigned() == a.u - 1, "decrement-wrong", what); ++v; }
	} else if (a.f == a.f) {
		Variant n = -v;
		VH_CHECK(n.IsFloat() && n.AsLongDouble() == -(long double)a.f, "negation-wrong", what);
		++v;
		VH_CHECK(v.IsFloat() && v.AsLongDouble() == (long double)a.f + 1, "increment-wrong", what);
	}
	// through a reference to an element
	Variant box(Variant::MapType);
	box["x"] = num(a);
	VariantRef in = box["x"];
	EqOpt eo;
	eo.exact_int_kind = true;
	if (a.k == K_INT ? a.i > INT64_MIN : a.k == K_UINT ? a.u == 0 : a.f == a.f) {
		Variant n = -in;
		if (a.k == K_INT) VH_CHECK(n.IsInt() && n.AsInt() == -a.i, "negation-wrong", what, " through a reference");
		else if (a.k == K_UINT) VH_CHECK(n.IsNumber() && n.AsInt() == 0, "negation-wrong", what, " through a reference");
		else VH_CHECK(n.IsFloat() && n.AsLongDouble() == -(long double)a.f, "negation-wrong", what, " through a reference");
	}
	VH_CHECK(same(from_variant(box["x"]), a, eo), "operand-changed", what, " through a reference");
	if (a.k == K_INT ? a.i < INT64_MAX : a.k == K_UINT ? a.u < UINT64_MAX : a.f == a.f) {
		MV next = a;
		if (a.k == K_INT) ++next.i; else if (a.k == K_UINT) ++next.u;
		++in;
		if (a.k == K_FLOAT) VH_CHECK(box["x"].IsFloat() && box["x"].AsLongDouble() == (long double)a.f + 1, "increment-wrong", what, " through a reference");
		else {
			VH_CHECK(same(from_variant(box["x"]), next, eo), "increment-wrong", what, " through a reference gave ", show(from_variant(box["x"])));
			--in;
			VH_CHECK(same(from_variant(box["x"]), a, eo), "decrement-wrong", what, " through a reference gave ", show(from_variant(box["x"])));
		}
	}
	VH_CHECK(same(from_variant(keep), a) && same(from_variant(+keep), a), "operand-changed", what);
	count("unary");
	// what is not a number
	Gen g;
	g.max_depth = 2;
	MV n;
	do n = gen(r, g); while (n.isnum());
	what = show(n, 200) + " with " + show(a);
	describe(what);
	const Variant vn = to_variant(n), va = num(a);
	for (int op = 0; op < 5; ++op) for (int side = 0; side < 2; ++side) {
		Variant x = side ? va : vn, y = side ? vn : va;
		bool raised = false;
		try { switch (op) { case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break; default: x %= y; } }
		catch (const std::exception &) { raised = true; }
		VH_CHECK(raised, "non-number-accepted", what, " op ", op, " side ", side);
		VH_CHECK(same(from_variant(x), side ? a : n) && same(from_variant(y), side ? n : a), "operand-changed", what);
	}
	bool raised = false;
	try { Variant x = -vn; } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "non-number-accepted", what, " negation");
	raised = false;
	try { Variant x = vn; ++x; } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "non-number-accepted", what, " increment");
	count("non-number");
	nontrivial(hash(what));
}

static void search(Rng &r) {
	Gen g;
	g.max_depth = 2; g.max_items = 3;
	MV l = MV::List();
	int n = r.below(9);
	std::vector<MV> pool;
	for (int i = 0; i < 4; ++i) pool.push_back(r.coin() ? edge_number(r) : gen(r, g));
	for (int i = 0; i < n; ++i) l.l.push_back(near(r.pick(pool), r));
	MV x = r.coin() && n ? near(l.l[r.below(n)], r) : r.pick(pool);
	size_t want = 0;
	while (want < l.l.size() && !equal(l.l[want], x)) ++want;
	std::string what = show(x, 200) + " in " + show(l, 400);
	describe(what);
	const Variant v = to_variant(l, r), y = to_variant(x, r);
	VH_CHECK(v.Index(y) == want, "search-wrong", what, " gave ", v.Index(y), " expected ", want);
	Variant own = to_variant(x);
	VariantRef ref(own);
	VH_CHECK(v.Index(ref) == want, "search-wrong", what, " by reference gave ", v.Index(ref));
	count(want < l.l.size() ? "found" : "not-found");
	nontrivial(hash(what));
}

static void one(Ctx &c) {
	switch (c.rng.below(8)) {
	case 0: case 1: case 2: compare(c.rng); break;
	case 3: case 4: case 5: arithmetic(c.rng); break;
	case 6: unary(c.rng); break;
	default: search(c.rng);
	}
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
