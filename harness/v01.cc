// V01 / V02: histories of value operations, judged step by step against a
// reference model of shared containers. With --refs 1, stored references take part.
#include "model.h"
#include <memory>
#include <algorithm>
#include <functional>
using namespace vh;
using namespace libvariant;

namespace {

struct Obj;
struct Cell {
	Cell() : k(K_NULL), moves(0) {}
	Kind k;
	MV sc;                        // scalar value
	std::shared_ptr<Obj> o;       // string, blob, list, map
	int moves;                    // times its list may have relocated it
};
typedef std::shared_ptr<Cell> CellP;
struct Obj {
	std::string s;
	std::vector<CellP> l;
	std::map<std::string, CellP> m;
};
typedef std::shared_ptr<Obj> ObjP;

enum Err { OK, E_TYPE, E_KEY, E_RANGE, E_REF, E_MISSING, E_OTHER };
const char *ename(Err e) { static const char *n[] = { "ok", "type error", "key error", "range error", "invalid reference", "missing element error", "other error" }; return n[e]; }
struct ME { Err e; };

MV value(const Cell &c) {
	switch (c.k) {
	case K_STR: return MV::Str(c.o->s);
	case K_BLOB: return MV::Blob(c.o->s);
	case K_LIST: { MV v = MV::List(); for (auto &x : c.o->l) v.l.push_back(value(*x)); return v; }
	case K_MAP: { MV v = MV::Map(); for (auto &x : c.o->m) v.m[x.first] = value(*x.second); return v; }
	default: { MV v = c.sc; v.k = c.k; return v; }
	}
}
void share(Cell &d, const Cell &s) {
	Kind k = s.k; MV sc = s.sc; ObjP o = s.o;
	d.k = k; d.sc = sc; d.o = o;
}
void set_scalar(Cell &d, const MV &v) { d.k = v.k; d.sc = v; d.o.reset(); if (v.k == K_STR || v.k == K_BLOB) { d.o = std::make_shared<Obj>(); d.o->s = v.s; } if (v.k == K_LIST || v.k == K_MAP) d.o = std::make_shared<Obj>(); }
void deep(Cell &d, const MV &v) {
	set_scalar(d, v);
	if (v.k == K_LIST) for (auto &x : v.l) { CellP c = std::make_shared<Cell>(); deep(*c, x); d.o->l.push_back(c); }
	if (v.k == K_MAP) for (auto &x : v.m) { CellP c = std::make_shared<Cell>(); deep(*c, x.second); d.o->m[x.first] = c; }
}
void reach(const Cell &c, std::set<Obj *> &objs, std::set<Cell *> &cells) {
	if (!c.o || objs.count(c.o.get())) return;
	objs.insert(c.o.get());
	for (auto &x : c.o->l) { cells.insert(x.get()); reach(*x, objs, cells); }
	for (auto &x : c.o->m) { cells.insert(x.second.get()); reach(*x.second, objs, cells); }
}
void grow(Obj &o, size_t n) {
	if (n <= o.l.size()) return;
	for (auto &x : o.l) x->moves++;
	while (o.l.size() < n) o.l.push_back(std::make_shared<Cell>());
}

struct Step { bool idx; unsigned i; std::string k; };
std::string steps(const std::vector<Step> &p) { std::string s; for (auto &x : p) s += x.idx ? cat("[", x.i, "]") : "." + printable(x.k, 20); return s; }

// A stored reference.
struct MRef {
	std::weak_ptr<Cell> cell;       // denoted element, or owner of a proxy
	int bound_moves;
	bool proxy;
	std::vector<Step> path;
	std::vector<ObjP> keep;         // containers a proxy may keep alive
	bool dead;                      // has raised, must keep raising
};

// What an unresolved reference means once it has been copied, extended or left behind by a container that
// moved is not pinned down: histories that do this ("loose") only look for memory errors from the first
// disagreement on.
struct World {
	Rng &r;
	bool refs;
	bool allow_loose, loose;
	std::vector<std::unique_ptr<Variant> > v;
	std::vector<CellP> m;
	std::vector<std::unique_ptr<VariantRef> > rv;
	std::vector<std::unique_ptr<MRef> > rm;
	std::string trace;
	int focus;               // steps left that work inside fa or fb
	size_t fa, fb;
	World(Rng &r_, bool refs_) : r(r_), refs(refs_), allow_loose(r_.chance(1, 3)), loose(false), focus(0), fa(0), fb(0) {}
};

// Something an operation can be applied to.
struct Loc {
	Variant *v;           // real
	CellP c;              // model element, null for an unresolved or dead reference
	MRef *ref;            // when reached through a stored reference
	std::string name;
};

Err lookup(const CellP &owner, const std::vector<Step> &p, CellP &out) {
	CellP c = owner;
	for (auto &s : p) {
		if (c->k == K_NULL) return s.idx ? E_RANGE : E_KEY;
		if (s.idx) {
			if (c->k != K_LIST) return E_TYPE;
			if (s.i >= c->o->l.size()) return E_RANGE;
			c = c->o->l[s.i];
		} else {
			if (c->k != K_MAP) return E_TYPE;
			auto f = c->o->m.find(s.k);
			if (f == c->o->m.end()) return E_KEY;
			c = f->second;
		}
	}
	out = c;
	return OK;
}
CellP child_create(Cell &c, const Step &s) {
	if (c.k == K_NULL) set_scalar(c, s.idx ? MV::List() : MV::Map());
	if (s.idx) {
		if (c.k != K_LIST) throw ME{ E_TYPE };
		grow(*c.o, (size_t)s.i + 1);
		return c.o->l[s.i];
	}
	if (c.k != K_MAP) throw ME{ E_TYPE };
	CellP &x = c.o->m[s.k];
	if (!x) x = std::make_shared<Cell>();
	return x;
}
CellP create(const CellP &owner, const std::vector<Step> &p) {
	CellP c = owner;
	// an existing value of the wrong kind fails before anything is created
	for (auto &s : p) {
		if (c->k == K_NULL) break;
		if (c->k != (s.idx ? K_LIST : K_MAP)) throw ME{ E_TYPE };
		if (s.idx) { if (s.i >= c->o->l.size()) break; c = c->o->l[s.i]; }
		else { auto f = c->o->m.find(s.k); if (f == c->o->m.end()) break; c = f->second; }
	}
	c = owner;
	for (auto &s : p) c = child_create(*c, s);
	return c;
}

template<typename F> Err attempt(F f, std::string &what) {
	try { f(); return OK; }
	catch (const InvalidReferenceError &e) { what = e.what(); return E_REF; }
	catch (const KeyError &e) { what = e.what(); return E_KEY; }
	catch (const std::out_of_range &e) { what = e.what(); return E_RANGE; }
	catch (const UnexpectedTypeError &e) { what = e.what(); return E_TYPE; }
	catch (const UnableToConvertError &e) { what = e.what(); return E_TYPE; }
	catch (const InvalidOperationError &e) { what = e.what(); return E_TYPE; }
	catch (const NotNumericTypeError &e) { what = e.what(); return E_TYPE; }
	catch (const TypeNotIndexableError &e) { what = e.what(); return E_TYPE; }
	catch (const UnknownTypeError &e) { what = e.what(); return E_TYPE; }
	catch (const std::exception &e) { what = e.what(); return E_OTHER; }
}

bool reachable(World &w, Cell *c) {
	std::set<Obj *> o;
	std::set<Cell *> s;
	for (auto &x : w.m) { s.insert(x.get()); reach(*x, o, s); }
	return s.count(c) > 0;
}

// Resolves a reference in the model as an operation would.
// maybe: raising an invalid-reference error is acceptable as well.
CellP resolve(World &w, MRef &m, bool for_write, bool &maybe) {
	maybe = false;
	if (m.dead) throw ME{ E_REF };
	CellP c = m.cell.lock();
	if (!c) throw ME{ E_REF };
	if (c->moves != m.bound_moves || !reachable(w, c.get())) maybe = true;
	if (!m.proxy) return c;
	if (maybe) w.loose = true;
	CellP t;
	Err e = lookup(c, m.path, t);
	if (e != OK) {
		if (!for_write) throw ME{ E_MISSING };
		t = create(c, m.path);
	}
	return t;
}
void lock_on(MRef &m, const CellP &t) {
	if (!m.proxy) return;
	m.proxy = false; m.path.clear(); m.keep.clear();
	m.cell = t;
	m.bound_moves = t->moves;
}

const char *KEYS[] = { "a", "b", "c", "", "x.y", "~1" };

MV small_scalar(Rng &r) {
	switch (r.below(8)) {
	case 0: return MV::Null();
	case 1: return MV::Bool(r.coin());
	case 2: return MV::Int(r.range(-5, 5));
	case 3: return MV::Uint(r.below(9));
	case 4: return MV::Float(r.range(-8, 8) / 4.0);
	case 5: return MV::Blob(gen_bytes(r, 6));
	default: return MV::Str(r.pick(KEYS));
	}
}
MV small_value(Rng &r, int d = 0) {
	if (d > 2 || r.chance(d ? 2 : 1, 4)) return small_scalar(r);
	MV v;
	int n = r.below(4);
	if (r.coin()) { v = MV::List(); for (int i = 0; i < n; ++i) v.l.push_back(small_value(r, d + 1)); }
	else { v = MV::Map(); for (int i = 0; i < n; ++i) v.m[r.pick(KEYS)] = small_value(r, d + 1); }
	return v;
}

Loc pick(World &w, bool allow_ref, bool descend, bool focus = false) {
	Rng &r = w.r;
	Loc l;
	l.ref = 0;
	if (!focus && allow_ref && !w.rv.empty() && r.chance(3, 5)) {
		size_t i = r.below(w.rv.size());
		l.v = w.rv[i].get();
		l.ref = w.rm[i].get();
		l.name = cat("r", i);
		return l;
	}
	size_t i = focus ? (r.coin() ? w.fa : w.fb) : r.below(w.v.size());
	l.v = w.v[i].get();
	l.c = w.m[i];
	l.name = cat("v", i);
	while (descend && r.chance(focus ? 4 : 2, 5)) {
		if (l.c->k == K_LIST && !l.c->o->l.empty()) {
			size_t n = r.below(l.c->o->l.size());
			l.v = &l.v->AsList()[n];
			l.c = l.c->o->l[n];
			l.name += cat("[", n, "]");
		} else if (l.c->k == K_MAP && !l.c->o->m.empty()) {
			auto it = l.c->o->m.begin();
			std::advance(it, r.below(l.c->o->m.size()));
			std::string k = it->first;
			Variant::Map::iterator mi = l.v->AsMap().find(k);
			if (mi == l.v->AsMap().end()) throw Fail("value-differs", "element missing after " + w.trace);
			l.v = &mi->second;
			l.c = it->second;
			l.name += "." + k;
		} else break;
	}
	return l;
}

void compare_all(World &w) {
	EqOpt eo;
	eo.exact_int_kind = true;
	for (size_t i = 0; i < w.v.size(); ++i) {
		std::string d = diff(value(*w.m[i]), from_variant(*w.v[i]), eo, cat("v", i));
		VH_CHECK(d.empty(), "value-differs", "model vs library: ", d, " | after: ", w.trace);
	}
}

Step gen_step(Rng &r) {
	Step s;
	s.idx = r.coin();
	s.i = r.chance(1, 12) ? 20 + r.below(30) : r.below(6);
	s.k = r.pick(KEYS);
	return s;
}

enum Op { ASSIGN, ASSIGN_COPY, ASSIGN_SCALAR, ASSIGN_TYPE, ASSIGN_FRESH, APPEND, SET, AT_DEF, INDEX_ASSIGN, INDEX_READ, GET, GET_DEF, CONTAINS, SIZE, EMPTY, FIND, ERASE, CLEAR, MERGE, INCR, ADDN,
	ASLIST, ASMAP, CONST_LIST, CONST_MAP, READ, COPY, CPP_VECTOR, CPP_MAP, SELF_CONTAINER, VEC_PUSH, MAP_ERASE, SWAP, GETPATH, SETPATH, DEFAULT_RESOLVE, NOPS };
const char *opname[] = { "assign", "assign-copy", "assign-scalar", "assign-type", "assign-fresh", "append", "set", "at-default", "index-assign", "index-read", "get", "get-default", "contains", "size", "empty", "find", "erase", "clear", "merge", "incr", "add",
	"as-list", "as-map", "const-list", "const-map", "read", "copy", "from-vector", "from-map", "self-container", "vector-push", "map-erase", "swap", "get-path", "set-path", "resolve-default" };

bool creates(Op op) {
	switch (op) {
	case ASSIGN: case ASSIGN_COPY: case ASSIGN_SCALAR: case ASSIGN_TYPE: case ASSIGN_FRESH: case APPEND: case SET: case AT_DEF: case INDEX_ASSIGN: case ASLIST: case ASMAP:
	case CPP_VECTOR: case CPP_MAP: case VEC_PUSH: case MAP_ERASE: case SETPATH: case DEFAULT_RESOLVE: return true;
	default: return false;
	}
}
// Through a reference these only look the element up when its container is asked for more.
bool need_list(Cell &c) {   // model of mutable AsList
	if (c.k == K_NULL) set_scalar(c, MV::List());
	if (c.k != K_LIST) throw ME{ E_TYPE };
	return true;
}
bool need_map(Cell &c) {
	if (c.k == K_NULL) set_scalar(c, MV::Map());
	if (c.k != K_MAP) throw ME{ E_TYPE };
	return true;
}

void step(World &w) {
	Rng &r = w.r;
	Op op = (Op)r.below(NOPS);
	// after one variable was made from another, mostly change something inside one of the two
	static const Op inside[] = { CLEAR, CLEAR, INCR, ADDN, SET, APPEND, ERASE, INDEX_ASSIGN, VEC_PUSH, MAP_ERASE, MERGE, ASSIGN_SCALAR, CLEAR };
	bool focus = w.focus > 0;
	if (focus) { --w.focus; op = r.pick(inside); }
	bool start = !focus && w.v.size() > 1 && r.chance(1, 8);
	if (start) { w.fa = r.below(w.v.size()); w.fb = (w.fa + 1 + r.below(w.v.size() - 1)) % w.v.size(); w.focus = r.range(1, 4); op = r.chance(2, 3) ? ASSIGN_COPY : ASSIGN; }
	if (op == SWAP && w.refs) op = ASSIGN;
	Loc T = pick(w, w.refs, true, focus);
	if (start) { T.v = w.v[w.fa].get(); T.c = w.m[w.fa]; T.ref = 0; T.name = cat("v", w.fa); }
	// the source: another location or a fresh value
	Loc S;
	S.v = 0; S.ref = 0;
	std::unique_ptr<Variant> fresh;
	if (start) {
		S.v = w.v[w.fb].get(); S.c = w.m[w.fb]; S.name = cat("v", w.fb);
	} else if (r.chance(1, 2)) {
		S = pick(w, w.refs, true);
	} else {
		MV f = small_value(r);
		fresh.reset(new Variant(to_variant(f, r)));
		S.c = std::make_shared<Cell>();
		deep(*S.c, f);
		S.v = fresh.get();
		S.name = show(f, 80);
	}
	Step st = gen_step(r);
	if ((op == INDEX_ASSIGN || op == INDEX_READ || op == GET || op == SET || op == ERASE || op == CONTAINS || op == AT_DEF || op == GET_DEF) && T.c && r.chance(4, 5)) {
		if (T.c->k == K_LIST) { st.idx = true; if (r.chance(3, 4) && !T.c->o->l.empty()) st.i = r.below(T.c->o->l.size() + 1); }
		if (T.c->k == K_MAP) { st.idx = false; if (r.coin() && !T.c->o->m.empty()) { auto it = T.c->o->m.begin(); std::advance(it, r.below(T.c->o->m.size())); st.k = it->first; } }
	}
	MV scalar = small_scalar(r);
	static const VariantDefines::Type_t types[] = { Variant::NullType, Variant::BoolType, Variant::IntegerType, Variant::UnsignedType, Variant::FloatType, Variant::StringType, Variant::ListType, Variant::MapType, Variant::BlobType };
	static const Kind kinds[] = { K_NULL, K_BOOL, K_INT, K_UINT, K_FLOAT, K_STR, K_LIST, K_MAP, K_BLOB };
	size_t ty = r.below(9);
	std::vector<int> ints;
	for (int i = r.below(4); i > 0; --i) ints.push_back(r.range(-3, 3));
	std::vector<Step> path(1, st);
	while (r.chance(1, 3) && path.size() < 4) path.push_back(gen_step(r));
	bool rm_empty = r.coin();
	(void)rm_empty;

	// Would it build a reference cycle? Those leak by design and are the user's business.
	bool stores = op == ASSIGN || op == APPEND || op == SET || op == AT_DEF || op == INDEX_ASSIGN || op == MERGE || op == SETPATH || op == VEC_PUSH || op == SWAP || op == DEFAULT_RESOLVE;
	if (stores && !fresh) {
		bool mb;
		CellP sc = S.c, tc = T.c;
		try { if (S.ref) sc = resolve(w, *S.ref, false, mb); } catch (const ME &) {}
		bool conservative = false;
		if (T.ref) {
			if (T.ref->proxy) { tc = T.ref->cell.lock(); conservative = true; }
			else tc = T.ref->cell.lock();
		}
		if (op == SETPATH || op == INDEX_ASSIGN || op == MERGE || op == SWAP) conservative = true;
		if (sc && tc) {
			std::set<Obj *> so, to; std::set<Cell *> scs, tcs;
			reach(*sc, so, scs);
			reach(*tc, to, tcs);
			bool cycle = scs.count(tc.get()) > 0 || (sc == tc && op != ASSIGN);
			if (op != ASSIGN && tc->o && so.count(tc->o.get())) cycle = true;
			if (conservative) for (auto o : so) if (to.count(o)) cycle = true;
			if (op == SWAP) { if (tcs.count(sc.get())) cycle = true; }
			if (cycle) { count("skipped-cycle"); return; }
		}
	}
	std::string tr = cat(opname[op], "(", T.name, ", ", S.name, st.idx ? cat(", [", st.i, "]") : cat(", .", st.k), op == ASSIGN_SCALAR || op == ADDN ? " " + show(scalar) : "", op == SETPATH || op == GETPATH ? " path " + steps(path) : "", op == ASSIGN_TYPE ? cat(" type ", ty) : "", ")");
	w.trace += tr + "; ";
	describe(w.trace);
	count(opname[op]);

	// ---- the library
	Variant &t = *T.v;
	const Variant &ct = t;
	MV got;
	std::string what;
	Path rp;
	for (auto &s : path) { if (s.idx) rp.push_back(PathElement(s.i)); else rp.push_back(PathElement(s.k)); }
	Err real = attempt([&]() {
		switch (op) {
		case ASSIGN: t = *S.v; break;
		case ASSIGN_COPY: t = S.v->Copy(); break;
		case ASSIGN_SCALAR:
			switch (scalar.k) {
			case K_NULL: t = Variant::NullType; break;
			case K_BOOL: t = scalar.b; break;
			case K_INT: if (st.idx) t = (int)scalar.i; else t = (long)scalar.i; break;
			case K_UINT: if (st.idx) t = (unsigned)scalar.u; else t = (unsigned long)scalar.u; break;
			case K_FLOAT: t = scalar.f; break;
			case K_BLOB: t = make_blob(scalar.s, &r); break;
			default: if (st.idx) t = scalar.s; else t = scalar.s.c_str(); break;
			}
			break;
		case ASSIGN_TYPE: t = types[ty]; break;
		case ASSIGN_FRESH: t = to_variant(scalar); break;
		case APPEND: t.Append(*S.v); break;
		case SET: if (st.idx) t.Set(st.i, *S.v); else t.Set(st.k, *S.v); break;
		case AT_DEF: got = st.idx ? from_variant(t.At(st.i, *S.v)) : from_variant(t.At(st.k, *S.v)); break;
		case INDEX_ASSIGN: if (st.idx) t[st.i] = *S.v; else t[st.k] = *S.v; break;
		case INDEX_READ: got = st.idx ? from_variant(t[st.i]) : from_variant(t[st.k]); break;
		case GET: got = st.idx ? from_variant(ct.Get(st.i)) : from_variant(ct.At(st.k)); break;
		case GET_DEF: got = st.idx ? from_variant(ct.Get(st.i, *S.v)) : from_variant(ct.Get(st.k, *S.v)); break;
		case CONTAINS: got = MV::Bool(st.idx ? ct.Contains(st.i) : ct.Contains(st.k)); break;
		case SIZE: got = MV::Uint(ct.Size()); break;
		case EMPTY: got = MV::Bool(ct.Empty()); break;
		case FIND: got = MV::Uint(ct.Index(*S.v)); break;
		case ERASE: if (st.idx) t.Erase(st.i); else t.Erase(st.k); break;
		case CLEAR: t.Clear(); break;
		case MERGE: t.Merge(*S.v); break;
		case INCR: if (st.idx) ++t; else --t; break;
		case ADDN: t += to_variant(scalar); break;
		case ASLIST: got = MV::Uint(t.AsList().size()); break;
		case ASMAP: got = MV::Uint(t.AsMap().size()); break;
		case CONST_LIST: got = MV::Uint(ct.AsList().size()); break;
		case CONST_MAP: got = MV::Uint(ct.AsMap().size()); break;
		case READ: got = from_variant(ct); break;
		case COPY: got = from_variant(ct.Copy()); break;
		case CPP_VECTOR: t = ints; break;
		case CPP_MAP: { std::map<std::string, int> mm; for (size_t i = 0; i < ints.size(); ++i) mm[KEYS[i]] = ints[i]; t = mm; break; }
		case SELF_CONTAINER: if (ct.IsList()) t = t.AsList(); else if (ct.IsMap()) t = t.AsMap(); break;
		case VEC_PUSH: { Variant tmp(*S.v); t.AsList().push_back(tmp); break; }
		case MAP_ERASE: t.AsMap().erase(st.k); break;
		case SWAP: std::swap(*T.v, *S.v); break;
		case GETPATH: got = from_variant(ct.GetPath(rp)); break;
		case SETPATH: t.SetPath(rp, *S.v); break;
		case DEFAULT_RESOLVE: { Variant d(*S.v); got = from_variant(t.Resolve(d)); break; }
		default: break;
		}
	}, what);

	// whether a failed operation looked an unresolved reference up is not pinned down either
	bool fuzzy = real != OK && ((T.ref && T.ref->proxy) || (S.ref && S.ref->proxy));
	struct Later { World &w; bool on; ~Later() { if (on && !std::uncaught_exception()) w.loose = true; } } later = { w, fuzzy };

	// ---- the model
	MV want;
	bool maybe = false, maybe_s = false;
	Err model = OK;
	if (real == E_REF && w.refs) {
		// acceptable only if a reference involved may have ended
		bool excuse = false;
		Loc *ls[2] = { &T, &S };
		for (int i = 0; i < 2; ++i) {
			if (!ls[i]->ref) continue;
			MRef &m = *ls[i]->ref;
			CellP c = m.cell.lock();
			if (m.dead || !c || c->moves != m.bound_moves || !reachable(w, c.get())) {
				excuse = true;
				if (c) m.dead = false;
			}
		}
		VH_CHECK(excuse, "live-reference-raises", tr, " raised an invalid-reference error although its element exists: ", what, " | after: ", w.trace);
		count("invalid-reference-raised");
		nontrivial(mix(hash(opname[op]), 77));
		compare_all(w);
		return;
	}
	try {
		CellP c = T.c, sc = S.c;
		bool uses_s = op == ASSIGN || op == ASSIGN_COPY || op == APPEND || op == SET || op == AT_DEF || op == INDEX_ASSIGN || op == GET_DEF || op == FIND || op == MERGE || op == VEC_PUSH || op == SWAP || op == SETPATH || op == DEFAULT_RESOLVE;
		if (S.ref && uses_s) sc = resolve(w, *S.ref, false, maybe_s);
		if (op == MERGE && sc->k != K_NULL && sc->k != K_MAP) throw ME{ E_TYPE };
		if (S.ref && uses_s) lock_on(*S.ref, sc);
		Cell scv;
		MV scm;
		if (sc) { scv = *sc; if (op == ASSIGN_COPY) scm = value(scv); }          // the value that is read, before anything is created
		if (T.ref) {
			bool wr = creates(op);
			if (op == MERGE) wr = sc->k == K_MAP && !sc->o->m.empty();
			bool noread = op == MERGE && !wr;
			if (op == INDEX_ASSIGN && T.ref->proxy) {
				// t[k] on an unresolved reference extends the path; the write then creates everything
				CellP own = T.ref->cell.lock();
				CellP x;
				if (!own || T.ref->dead) throw ME{ E_REF };
				if (lookup(own, T.ref->path, x) == OK) { lock_on(*T.ref, x); c = x; }
				else {
					std::vector<Step> p = T.ref->path;
					p.push_back(st);
					x = create(own, p);
					const Cell &cp = scv;
					share(*x, cp);
					goto done;
				}
			} else if (op == INDEX_READ && T.ref->proxy) {
				CellP own = T.ref->cell.lock();
				CellP x;
				if (!own || T.ref->dead) throw ME{ E_REF };
				if (lookup(own, T.ref->path, x) != OK) throw ME{ E_MISSING };
				lock_on(*T.ref, x);
				c = x;
			} else if (op == ASSIGN && S.ref == T.ref) {
				c = sc;
			} else if (!noread) {
				c = resolve(w, *T.ref, wr, maybe);
				lock_on(*T.ref, c);
			}
		}
		switch (op) {
		case ASSIGN: share(*c, scv); break;
		case ASSIGN_COPY: deep(*c, scm); break;
		case ASSIGN_SCALAR: case ASSIGN_FRESH: set_scalar(*c, scalar); break;
		case ASSIGN_TYPE: { MV z; z.k = kinds[ty]; set_scalar(*c, z); break; }
		case APPEND: case VEC_PUSH: {
			const Cell &cp = scv;
			need_list(*c);
			ObjP o = c->o;
			for (auto &x : o->l) x->moves++;
			CellP n = std::make_shared<Cell>();
			share(*n, cp);
			o->l.push_back(n);
			break;
		}
		case SET: case INDEX_ASSIGN: { const Cell &cp = scv; CellP x = child_create(*c, st); share(*x, cp); break; }
		case AT_DEF: {
			const Cell &cp = scv;
			CellP x;
			bool had = lookup(c, std::vector<Step>(1, st), x) == OK;
			x = child_create(*c, st);
			if (!had) share(*x, cp);
			want = value(*x);
			break;
		}
		case INDEX_READ: case GET: { CellP x; Err e = lookup(c, std::vector<Step>(1, st), x); if (e != OK) throw ME{ e }; want = value(*x); break; }
		case GET_DEF: { CellP x; Err e = lookup(c, std::vector<Step>(1, st), x); want = e == OK ? value(*x) : value(*sc); break; }
		case CONTAINS: { CellP x; want = MV::Bool(lookup(c, std::vector<Step>(1, st), x) == OK); break; }
		case SIZE:
			switch (c->k) {
			case K_NULL: want = MV::Uint(0); break;
			case K_STR: case K_BLOB: want = MV::Uint(c->o->s.size()); break;
			case K_LIST: want = MV::Uint(c->o->l.size()); break;
			case K_MAP: want = MV::Uint(c->o->m.size()); break;
			default: throw ME{ E_TYPE };
			}
			break;
		case EMPTY:
			switch (c->k) {
			case K_NULL: want = MV::Bool(true); break;
			case K_STR: want = MV::Bool(c->o->s.empty()); break;
			case K_LIST: want = MV::Bool(c->o->l.empty()); break;
			case K_MAP: want = MV::Bool(c->o->m.empty()); break;
			case K_BLOB: want = got; break;    // not stated for blobs
			default: throw ME{ E_TYPE };
			}
			if (c->k == K_BLOB) return;
			break;
		case FIND: {
			if (c->k != K_LIST) throw ME{ E_TYPE };
			size_t i = 0;
			MV sv = value(*sc);
			std::function<bool(const MV &, const MV &)> eq = [&](const MV &a, const MV &b) -> bool {
				if (a.isnum() && b.isnum()) {
					long double x = a.k == K_INT ? (long double)a.i : a.k == K_UINT ? (long double)a.u : a.f, y = b.k == K_INT ? (long double)b.i : b.k == K_UINT ? (long double)b.u : b.f;
					return x == y;
				}
				if (a.k != b.k) return false;
				if (a.k == K_LIST) { if (a.l.size() != b.l.size()) return false; for (size_t j = 0; j < a.l.size(); ++j) if (!eq(a.l[j], b.l[j])) return false; return true; }
				if (a.k == K_MAP) { if (a.m.size() != b.m.size()) return false; auto p = a.m.begin(); auto q = b.m.begin(); for (; p != a.m.end(); ++p, ++q) if (p->first != q->first || !eq(p->second, q->second)) return false; return true; }
				return same(a, b);
			};
			while (i < c->o->l.size() && !eq(value(*c->o->l[i]), sv)) ++i;
			want = MV::Uint(i);
			break;
		}
		case ERASE:
			if (c->k == K_NULL) break;
			if (c->k != (st.idx ? K_LIST : K_MAP)) throw ME{ E_TYPE };
			if (!st.idx) c->o->m.erase(st.k);
			else if (st.i + 1 < c->o->l.size()) set_scalar(*c->o->l[st.i], MV::Null());
			else if (st.i < c->o->l.size()) c->o->l.pop_back();
			break;
		case CLEAR:
			switch (c->k) {
			case K_STR: c->o->s.clear(); break;
			case K_LIST: { std::vector<CellP> old; old.swap(c->o->l); break; }
			case K_MAP: { std::map<std::string, CellP> old; old.swap(c->o->m); break; }
			default: set_scalar(*c, MV::Null());
			}
			break;
		case MERGE: {
			if (sc->k == K_NULL || sc->o->m.empty()) break;
			ObjP src = sc->o;
			if (c->k != K_NULL && c->k != K_MAP) throw ME{ E_TYPE };
			need_map(*c);
			for (auto &x : src->m) { Cell cp = *x.second; Step s2; s2.idx = false; s2.k = x.first; share(*child_create(*c, s2), cp); }
			break;
		}
		case INCR:
			switch (c->k) {
			case K_INT: c->sc.i += st.idx ? 1 : -1; break;
			case K_UINT: c->sc.u += st.idx ? 1 : -1; break;
			case K_FLOAT: c->sc.f += st.idx ? 1 : -1; break;
			default: throw ME{ E_TYPE };
			}
			break;
		case ADDN: {
			MV a = c->sc; a.k = c->k;
			if (!a.isnum() || !scalar.isnum()) throw ME{ E_TYPE };
			if (a.k == K_FLOAT || scalar.k == K_FLOAT) {
				double x = a.k == K_FLOAT ? a.f : a.k == K_INT ? (double)a.i : (double)a.u, y = scalar.k == K_FLOAT ? scalar.f : scalar.k == K_INT ? (double)scalar.i : (double)scalar.u;
				if ((a.k == K_UINT && a.u > (1ull << 53)) || (scalar.k == K_UINT && scalar.u > (1ull << 53))) { set_scalar(*c, MV::Float(from_variant(ct).f)); break; }
				set_scalar(*c, MV::Float(x + y));
			} else if (a.k == K_UINT || scalar.k == K_UINT) {
				uint64_t x = a.k == K_UINT ? a.u : (uint64_t)a.i, y = scalar.k == K_UINT ? scalar.u : (uint64_t)scalar.i;
				set_scalar(*c, MV::Uint(x + y));
			} else set_scalar(*c, MV::Int(a.i + scalar.i));
			break;
		}
		case ASLIST: need_list(*c); want = MV::Uint(c->o->l.size()); break;
		case ASMAP: need_map(*c); want = MV::Uint(c->o->m.size()); break;
		case CONST_LIST: if (c->k != K_LIST) throw ME{ E_TYPE }; want = MV::Uint(c->o->l.size()); break;
		case CONST_MAP: if (c->k != K_MAP) throw ME{ E_TYPE }; want = MV::Uint(c->o->m.size()); break;
		case READ: case COPY: want = value(*c); break;
		case CPP_VECTOR: { MV l = MV::List(); for (int i : ints) l.l.push_back(MV::Int(i)); deep(*c, l); break; }
		case CPP_MAP: { MV mm = MV::Map(); for (size_t i = 0; i < ints.size(); ++i) mm.m[KEYS[i]] = MV::Int(ints[i]); deep(*c, mm); break; }
		case SELF_CONTAINER:
			// a new container holding the same elements
			if (c->k == K_LIST) { ObjP n = std::make_shared<Obj>(); for (auto &x : c->o->l) { CellP e = std::make_shared<Cell>(); share(*e, *x); n->l.push_back(e); } c->o = n; }
			else if (c->k == K_MAP) { ObjP n = std::make_shared<Obj>(); for (auto &x : c->o->m) { CellP e = std::make_shared<Cell>(); share(*e, *x.second); n->m[x.first] = e; } c->o = n; }
			break;
		case MAP_ERASE: need_map(*c); c->o->m.erase(st.k); break;
		case SWAP: { Cell a = *c, b = scv; share(*c, b); share(*sc, a); break; }
		case GETPATH: { CellP x; Err e = lookup(c, path, x); if (e != OK) throw ME{ e }; want = value(*x); break; }
		case SETPATH: { const Cell &cp = scv; CellP x = create(c, path); share(*x, cp); break; }
		case DEFAULT_RESOLVE: if (c->k == K_NULL) share(*c, scv); want = value(*c); break;
		default: break;
		}
	done:;
	} catch (const ME &e) { model = e.e; }
	if (model == E_MISSING && (real == E_KEY || real == E_RANGE || real == E_TYPE)) real = E_MISSING;
	if (S.ref && real != OK && model != OK) model = real;      // two bad references: either may be noticed first
	VH_CHECK(real == model, model == OK ? std::string("raises-unexpectedly:") + opname[op] : std::string("wrong-error:") + opname[op], tr, ": library ", ename(real), " (", what, "), expected ", ename(model), " | after: ", w.trace);
	if (real == OK) {
		EqOpt eo;
		eo.exact_int_kind = true;
		std::string d = diff(want, got, eo, "result");
		VH_CHECK(d.empty(), std::string("wrong-result:") + opname[op], tr, ": expected vs got ", d, " | after: ", w.trace);
	} else count("raised");
	nontrivial(mix(mix(hash(opname[op]), real), mix(T.c ? T.c->k : 20, shape(value(*w.m[0])) & 0xfff)));
	compare_all(w);
}

void ref_step(World &w) {
	Rng &r = w.r;
	switch (r.below(5)) {
	case 0: case 1: {       // make a reference
		if (w.rv.size() >= 6) break;
		bool from_ref = !w.rv.empty() && r.chance(1, 3);
		Loc L = pick(w, false, true);
		std::unique_ptr<MRef> m(new MRef());
		m->dead = false;
		std::vector<Step> path;
		int n = r.below(4);
		CellP owner = L.c;
		Variant *base = L.v;
		MRef *src = 0;
		if (from_ref) {
			size_t i = r.below(w.rv.size());
			if (w.rm[i]->proxy) { if (!w.allow_loose) break; w.loose = true; }
			base = w.rv[i].get();
			src = w.rm[i].get();
			L.name = cat("r", i);
			owner = src->cell.lock();
			if (src->proxy) path = src->path;
		}
		std::vector<Step> ext;
		for (int i = 0; i < n; ++i) {
			Step s = gen_step(r);
			CellP here;
			std::vector<Step> full = path;
			full.insert(full.end(), ext.begin(), ext.end());
			if (owner && lookup(owner, full, here) == OK && r.chance(3, 4)) {
				if (here->k == K_LIST) { s.idx = true; s.i = r.below(here->o->l.size() + 1); }
				else if (here->k == K_MAP) { s.idx = false; if (r.coin() && !here->o->m.empty()) { auto it = here->o->m.begin(); std::advance(it, r.below(here->o->m.size())); s.k = it->first; } }
			}
			ext.push_back(s);
		}
		bool with_path = r.coin();
		std::string tr = cat("r", w.rv.size(), with_path ? " := path-reference(" : " := reference(", L.name, steps(ext), ")");
		w.trace += tr + "; ";
		describe(w.trace);
		count("make-reference");
		std::unique_ptr<VariantRef> real;
		std::string what;
		Err e = attempt([&]() {
			Path rp;
			for (auto &s : ext) { if (s.idx) rp.push_back(PathElement(s.i)); else rp.push_back(PathElement(s.k)); }
			if (ext.empty()) real.reset(src ? new VariantRef(*static_cast<VariantRef *>(base)) : new VariantRef(base->Ref()));
			else if (with_path) real.reset(new VariantRef(base->AtPath(rp)));
			else {
				std::unique_ptr<VariantRef> cur;
				for (auto &s : ext) {
					Variant &b = cur ? *cur : *base;
					std::unique_ptr<VariantRef> nx(s.idx ? new VariantRef(b[s.i]) : new VariantRef(b[s.k]));
					cur.reset();
					cur.swap(nx);
				}
				real.swap(cur);
			}
		}, what);
		// model
		std::vector<Step> full = path;
		full.insert(full.end(), ext.begin(), ext.end());
		CellP t;
		bool must_fail = src && (src->dead || !owner);
		bool may_fail = src && owner && (owner->moves != src->bound_moves || !reachable(w, owner.get()));
		if (e == E_REF) {
			VH_CHECK(must_fail || may_fail, "live-reference-raises", tr, " raised: ", what, " | after: ", w.trace);
			count("invalid-reference-raised");
			return;
		}
		VH_CHECK(!must_fail, "dead-reference-usable", tr, " | after: ", w.trace);
		Err le = lookup(owner, full, t);
		if (src && src->proxy && !ext.empty()) {
			// asking an unresolved reference for a sub-element looks the element up
			CellP x;
			if (lookup(owner, path, x) == OK) { lock_on(*src, x); owner = x; full = ext; path.clear(); }
		}
		if (e != OK) {
			// indexing into a value that is not a container
			VH_CHECK(e == E_TYPE && le == E_TYPE, "raises-unexpectedly:reference", tr, ": ", what, " | after: ", w.trace);
			return;
		}
		if (le == OK && !(src && src->proxy && ext.empty())) {
			m->proxy = false; m->cell = t; m->bound_moves = t->moves;
		} else {
			m->proxy = true; m->cell = owner; m->path = full; m->bound_moves = owner->moves;
			m->keep.push_back(owner->o);
			// a path reference may anchor at the deepest existing element
			if (with_path && !ext.empty()) {
				CellP a = owner; std::vector<Step> rest = full;
				while (!rest.empty()) { CellP nx; if (lookup(a, std::vector<Step>(1, rest[0]), nx) != OK) break; a = nx; rest.erase(rest.begin()); }
				m->cell = a; m->path = rest; m->bound_moves = a->moves; m->keep.push_back(a->o);
			} else if (!ext.empty()) {
				// element by element: anchors at the deepest element that existed
				CellP a = owner; std::vector<Step> rest = full;
				while (!rest.empty()) { CellP nx; if (lookup(a, std::vector<Step>(1, rest[0]), nx) != OK) break; a = nx; rest.erase(rest.begin()); }
				m->cell = a; m->path = rest; m->bound_moves = a->moves; m->keep.push_back(a->o);
			}
			count("proxy-reference");
		}
		w.rv.push_back(std::move(real));
		w.rm.push_back(std::move(m));
		break;
	}
	case 2: {               // drop a reference
		if (w.rv.empty() || r.coin()) break;
		size_t i = r.below(w.rv.size());
		w.trace += cat("drop r", i, "; ");
		w.rv.erase(w.rv.begin() + i);
		w.rm.erase(w.rm.begin() + i);
		break;
	}
	case 3: {               // does it exist?
		if (w.rv.empty()) break;
		size_t i = r.below(w.rv.size());
		MRef &m = *w.rm[i];
		w.trace += cat("exists r", i, "; ");
		describe(w.trace);
		count("exists");
		bool ex = w.rv[i]->Exists();
		CellP c = m.cell.lock(), t;
		bool alive = c && !m.dead;
		bool maybe = alive && (c->moves != m.bound_moves || !reachable(w, c.get()));
		if (m.proxy && (maybe || !c)) w.loose = true;
		bool want = alive && (!m.proxy || lookup(c, m.path, t) == OK);
		VH_CHECK(ex == want || (maybe && !ex), "exists-wrong", "r", i, " exists: ", ex, ", expected ", want, " | after: ", w.trace);
		break;
	}
	default: {              // re-point
		if (w.rv.size() < 1) break;
		size_t i = r.below(w.rv.size());
		bool other_ref = w.rv.size() > 1 && r.coin();
		Loc L = pick(w, false, true);
		size_t j = r.below(w.rv.size());
		if (w.rm[i]->proxy || (other_ref && w.rm[j]->proxy)) { if (!w.allow_loose) break; w.loose = true; }
		if (other_ref) L.name = cat("r", j);
		w.trace += cat("r", i, " re-pointed to ", L.name, "; ");
		describe(w.trace);
		count("re-point");
		std::string what;
		Err e = attempt([&]() { w.rv[i]->ReassignRef(other_ref ? *w.rv[j] : *L.v); }, what);
		if (other_ref) {
			MRef &s = *w.rm[j];
			CellP c = s.cell.lock();
			bool must_fail = s.dead || !c, may_fail = c && (c->moves != s.bound_moves || !reachable(w, c.get()));
			if (e == E_REF) { VH_CHECK(must_fail || may_fail, "live-reference-raises", "re-point: ", what, " | after: ", w.trace); return; }
			VH_CHECK(e == OK && !must_fail, "re-point-wrong", ename(e), " ", what, " | after: ", w.trace);
			if (i != j) { MRef cp = s; *w.rm[i] = cp; }
			if (w.rm[i]->proxy) w.rm[i]->keep.push_back(c->o);
		} else {
			VH_CHECK(e == OK, "raises-unexpectedly:re-point", what, " | after: ", w.trace);
			MRef &m = *w.rm[i];
			m.proxy = false; m.path.clear(); m.keep.clear(); m.dead = false; m.cell = L.c; m.bound_moves = L.c->moves;
		}
		break;
	}
	}
}

void collect(Variant &v, std::set<Variant::List *> &ls, std::set<Variant::Map *> &ms) {
	if (v.IsList()) { Variant::List &l = v.AsList(); if (ls.insert(&l).second) for (size_t i = 0; i < l.size(); ++i) collect(l[i], ls, ms); }
	else if (v.IsMap()) { Variant::Map &m = v.AsMap(); if (ms.insert(&m).second) for (Variant::Map::iterator i = m.begin(); i != m.end(); ++i) collect(i->second, ls, ms); }
}
void break_cycles(World &w) {
	w.rv.clear();
	std::vector<Variant> hold;
	for (auto &x : w.v) hold.push_back(*x);
	w.v.clear();
	// empty every container from the leaves' side: take the contents out first so that none is destroyed mid-walk
	std::set<Variant::List *> ls; std::set<Variant::Map *> ms;
	for (auto &x : hold) collect(x, ls, ms);
	std::vector<Variant::List> dl; std::vector<Variant::Map> dm;
	for (auto l : ls) { dl.push_back(Variant::List()); dl.back().swap(*l); }
	for (auto m : ms) { dm.push_back(Variant::Map()); dm.back().swap(*m); }
}

// Every way of reading, through references to an element that is missing, then made by other means.
typedef std::function<MV(Variant &)> Reading;
const std::vector<std::pair<const char *, Reading> > &readings() {
	static std::vector<std::pair<const char *, Reading> > v;
	if (v.empty()) {
		const Variant two(2);
		v.push_back({ "AsBool", [](Variant &x) { return MV::Bool(x.AsBool()); } });
		v.push_back({ "AsInt", [](Variant &x) { return MV::Int(x.AsInt()); } });
		v.push_back({ "AsUnsigned", [](Variant &x) { return MV::Uint(x.AsUnsigned()); } });
		v.push_back({ "AsDouble", [](Variant &x) { return MV::Float(x.AsDouble()); } });
		v.push_back({ "AsLongDouble", [](Variant &x) { return MV::Float((double)x.AsLongDouble()); } });
		v.push_back({ "AsString", [](Variant &x) { return MV::Str(x.AsString()); } });
		v.push_back({ "As<int>", [](Variant &x) { return MV::Int(x.As<int>()); } });
		v.push_back({ "const AsBlob", [](Variant &x) { const Variant &c = x; return from_variant(Variant(c.AsBlob()->Copy())); } });
		v.push_back({ "AsBlob", [](Variant &x) { return from_variant(Variant(x.AsBlob()->Copy())); } });
		v.push_back({ "const AsList", [](Variant &x) { const Variant &c = x; return MV::Int(c.AsList().size()); } });
		v.push_back({ "const AsMap", [](Variant &x) { const Variant &c = x; return MV::Int(c.AsMap().size()); } });
		v.push_back({ "GetType", [](Variant &x) { return MV::Int(x.GetType()); } });
		v.push_back({ "Size", [](Variant &x) { return MV::Int(x.Size()); } });
		v.push_back({ "negation", [](Variant &x) { return from_variant(-x); } });
		v.push_back({ "+=", [two](Variant &x) { x += two; return from_variant(x); } });
		v.push_back({ "-=", [two](Variant &x) { x -= two; return from_variant(x); } });
		v.push_back({ "*=", [two](Variant &x) { x *= two; return from_variant(x); } });
		v.push_back({ "/=", [two](Variant &x) { x /= two; return from_variant(x); } });
		v.push_back({ "%=", [two](Variant &x) { x %= two; return from_variant(x); } });
		v.push_back({ "++", [](Variant &x) { ++x; return from_variant(x); } });
		v.push_back({ "--", [](Variant &x) { --x; return from_variant(x); } });
		v.push_back({ "copy", [](Variant &x) { return from_variant(x.Copy()); } });
		v.push_back({ "value", [](Variant &x) { Variant y; y = x; return from_variant(y); } });
	}
	return v;
}
void missing_reads(Rng &r) {
	MV d = MV::Map();
	d.m["here"] = MV::Int(1);
	d.m["list"] = MV::List();
	for (int n = r.below(3); n > 0; --n) d.m["list"].l.push_back(MV::Int(n));
	std::vector<Step> path;
	if (r.coin()) { Step s; s.idx = false; s.k = "list"; path.push_back(s); Step e; e.idx = true; e.i = d.m["list"].l.size(); path.push_back(e); }
	int n = r.below(3) + (path.empty() ? 1 : 0);
	for (int i = 0; i < n; ++i) { Step s; s.idx = false; s.k = cat("gone", i); path.push_back(s); }
	Gen g;
	g.max_depth = 2;
	MV value = r.chance(1, 3) ? gen(r, g) : MV::Null();
	if (value.isnum() || value.k == K_NULL) value = r.coin() ? MV::Int(r.range(-1000, 1000)) : r.coin() ? MV::Uint(r.coin() ? r.below(1000) : r.next()) : r.coin() ? MV::Float(r.range(-100, 100) / 4.0) : MV::Str(r.coin() ? "17" : "text");
	std::string what = cat(show(d), " at ", steps(path), " then ", show(value, 400));
	describe(what);
	Variant v = to_variant(d);
	Path rp;
	for (auto &s : path) { if (s.idx) rp.push_back(PathElement(s.i)); else rp.push_back(PathElement(s.k)); }
	const auto &all = readings();
	const auto &one = all[r.below(all.size())];
	VariantRef ref = [&]() -> VariantRef {
		if (r.coin()) return v.AtPath(rp);
		VariantRef cur = v;
		for (auto &s : path) { if (s.idx) cur.ReassignRef(cur[s.i]); else cur.ReassignRef(cur[s.k]); }
		return cur;
	}();
	for (int k = r.coin() ? 2 : 1; k > 0; --k) {
		const auto &x = k == 2 ? all[r.below(all.size())] : one;
		bool raised = false;
		MV got;
		try { got = x.second(ref); } catch (const std::exception &) { raised = true; }
		VH_CHECK(raised, cat("missing-read:", x.first), what, " gave ", show(got));
		VH_CHECK(same(from_variant(v), d), cat("missing-read-changed:", x.first), what, " left ", show(from_variant(v)));
		VH_CHECK(!ref.Exists(), "exists-wrong", what);
	}
	// now the element comes to be, by the reference itself or by other means
	bool self = r.coin();
	if (self) ref = to_variant(value); else v.SetPath(rp, to_variant(value));
	VH_CHECK(v.HasPath(rp) && same(from_variant(v.AtPath(rp)), value), "missing-write", what, " left ", show(from_variant(v)));
	Variant direct = to_variant(value);
	bool raised = false, want_raised = false;
	MV want, got;
	std::string why;
	try { want = one.second(direct); } catch (const std::exception &) { want_raised = true; }
	try { got = one.second(ref); } catch (const std::exception &e) { raised = true; why = e.what(); }
	VH_CHECK(raised == want_raised, cat("found-read:", one.first), what, self ? " (own)" : " (other)", " raised ", raised, " ", why);
	EqOpt eo;
	eo.exact_int_kind = true;
	VH_CHECK(raised || same(want, got, eo), cat("found-read:", one.first), what, self ? " (own)" : " (other)", " expected ", show(want), " got ", show(got));
	VH_CHECK(same(from_variant(v.AtPath(rp)), from_variant(direct), eo), cat("found-read-element:", one.first), what, " left ", show(from_variant(v)));
	VH_CHECK(ref.Exists(), "exists-wrong", what);
	count("missing-read");
	count(self ? "made-by-reference" : "made-otherwise");
	nontrivial(mix(hash(one.first), hash(what)));
}

void one(Ctx &c) {
	if (arg("refs", "0") == "1" && c.rng.chance(1, 5)) return missing_reads(c.rng);
	World w(c.rng, arg("refs", "0") == "1");
	int nv = c.rng.range(2, 4);
	for (int i = 0; i < nv; ++i) {
		MV f = small_value(c.rng);
		w.v.push_back(std::unique_ptr<Variant>(new Variant(to_variant(f, c.rng))));
		w.m.push_back(std::make_shared<Cell>());
		deep(*w.m.back(), f);
		w.trace += cat("v", i, "=", show(f, 200), "; ");
	}
	try {
	int n = c.rng.range(5, c.thorough ? 60 : 35);
	for (int i = 0; i < n; ++i) {
		if (w.refs && c.rng.chance(2, 5)) ref_step(w);
		else step(w);
		// variables come and go
		if (c.rng.chance(1, 25)) {
			size_t k = c.rng.below(w.v.size());
			w.trace += cat("destroy v", k, "; ");
			describe(w.trace);
			count("destroy-variable");
			w.v[k].reset(new Variant());
			w.m[k] = std::make_shared<Cell>();
		}
	}
	count("steps", n);
	sample(w.trace.substr(0, 900));
	// the order in which references and variables end varies
	if (c.rng.coin()) { w.rv.clear(); w.v.clear(); } else {
		w.v.clear();
		w.m.clear();
		for (size_t i = 0; i < w.rv.size(); ++i) {
			VariantRef *x = w.rv[i].get();
			if (w.rm[i]->cell.lock() && !w.rm[i]->dead) continue;      // kept alive by another reference
			std::string what;
			VH_CHECK(!x->Exists(), "exists-wrong", "reference exists after its owner is gone | after: ", w.trace);
			Err e = attempt([&]() { from_variant(*x); }, what);
			VH_CHECK(e == E_REF, "dead-reference-usable", ename(e), " | after: ", w.trace);
		}
		w.rv.clear();
	}
	} catch (const Fail &) {
		if (!w.loose) throw;
		count("loose-history-abandoned");
		break_cycles(w);
	}
}
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
