// V05: paths - get, set, erase and text form agree with a tree model.
#include "model.h"
#include <Variant/Path.h>
using namespace vh;
using namespace libvariant;

struct Step { bool idx; unsigned i; std::string k; };
typedef std::vector<Step> P;

static Path real(const P &p) {
	Path o;
	for (auto &s : p) o.push_back(s.idx ? PathElement(s.i) : PathElement(s.k));
	return o;
}
static std::string pshow(const P &p) { std::string s; for (auto &x : p) s += x.idx ? cat("[", x.i, "]") : "/" + printable(x.k, 40); return s.empty() ? "(root)" : s; }

// Path text written by hand from the documented grammar.
static std::string text(const P &p, Rng &r) {
	std::string o;
	for (size_t n = 0; n < p.size(); ++n) {
		if (p[n].idx) { o += cat("[", p[n].i, "]"); continue; }
		o += "/";
		for (char c : p[n].k) { if (c == '/' || c == '[' || c == ']' || c == '\\') o += '\\'; o += c; }
	}
	if (p.empty()) return r.coin() ? "/" : "";
	if (r.chance(1, 4)) o += "/";       // ignored
	return o;
}

static std::string key(Rng &r) {
	static const char *ks[] = { "a", "b", "c", "key", "a/b", "[0]", "]", "\\", "a\\/b", "0", "", "x.y", "~1", " ", "k[1]/z", "//", "\\\\", "-" };
	if (r.chance(1, 10)) { Gen g; g.nul = true; return gen_key(r, g); }
	return r.pick(ks);
}
static Step gen_step(Rng &r) {
	Step s;
	s.idx = r.chance(2, 5);
	s.i = r.chance(1, 30) ? r.below(2000) : r.below(6);
	s.k = key(r);
	return s;
}
static MV tree(Rng &r, int d) {
	Gen g;
	g.max_depth = 1;
	if (d > 3 || r.chance(1, 4)) return gen_scalar(r, g);
	MV v;
	int n = r.below(5);
	if (r.coin()) { v = MV::List(); for (int i = 0; i < n; ++i) v.l.push_back(tree(r, d + 1)); }
	else { v = MV::Map(); for (int i = 0; i < n; ++i) v.m[key(r)] = tree(r, d + 1); }
	return v;
}
static P gen_path(Rng &r, const MV &doc) {
	P p;
	const MV *cur = &doc;
	int n = r.range(0, 5);
	for (int i = 0; i < n; ++i) {
		Step s = gen_step(r);
		if (cur && r.chance(5, 6)) {
			if (cur->k == K_LIST) { s.idx = true; if (r.chance(4, 5) && !cur->l.empty()) s.i = r.below(cur->l.size()); else s.i = cur->l.size() + r.below(3); }
			else if (cur->k == K_MAP) { s.idx = false; if (r.chance(4, 5) && !cur->m.empty()) { auto it = cur->m.begin(); std::advance(it, r.below(cur->m.size())); s.k = it->first; } }
		}
		p.push_back(s);
		const MV *nx = 0;
		if (cur) {
			if (s.idx && cur->k == K_LIST && s.i < cur->l.size()) nx = &cur->l[s.i];
			if (!s.idx && cur->k == K_MAP) { auto f = cur->m.find(s.k); if (f != cur->m.end()) nx = &f->second; }
		}
		cur = nx;
	}
	return p;
}

enum Found { HERE, ABSENT, WRONG_TYPE };
static Found lookup(const MV &doc, const P &p, const MV *&out) {
	const MV *c = &doc;
	for (auto &s : p) {
		if (c->k == K_NULL) return ABSENT;
		if (s.idx) { if (c->k != K_LIST) return WRONG_TYPE; if (s.i >= c->l.size()) return ABSENT; c = &c->l[s.i]; }
		else { if (c->k != K_MAP) return WRONG_TYPE; auto f = c->m.find(s.k); if (f == c->m.end()) return ABSENT; c = &f->second; }
	}
	out = c;
	return HERE;
}
static bool can_set(const MV &doc, const P &p) {
	const MV *c = &doc;
	for (auto &s : p) {
		if (c->k == K_NULL) return true;
		if (s.idx) { if (c->k != K_LIST) return false; if (s.i >= c->l.size()) return true; c = &c->l[s.i]; }
		else { if (c->k != K_MAP) return false; auto f = c->m.find(s.k); if (f == c->m.end()) return true; c = &f->second; }
	}
	return true;
}
static void set(MV &doc, const P &p, const MV &v) {
	MV *c = &doc;
	for (auto &s : p) {
		if (c->k == K_NULL) *c = s.idx ? MV::List() : MV::Map();
		if (s.idx) { if (s.i >= c->l.size()) c->l.resize(s.i + 1); c = &c->l[s.i]; }
		else c = &c->m[s.k];
	}
	*c = v;
}
// Returns false when the outcome is not pinned down by the documentation.
enum Erased { DONE, RAISES, UNCLEAR };
static Erased erase_at(MV &c, const P &p, size_t n, bool prune) {
	if (n == p.size()) return DONE;
	const Step &s = p[n];
	bool last = n + 1 == p.size();
	if (c.k == K_NULL) return DONE;
	if (s.idx ? c.k != K_LIST : c.k != K_MAP) return last ? RAISES : DONE;
	if (s.idx) {
		if (s.i >= c.l.size()) return DONE;
		if (!last) {
			MV &x = c.l[s.i];
			if (prune && x.k != K_LIST && x.k != K_MAP) return UNCLEAR;
			Erased e = erase_at(x, p, n + 1, prune);
			if (e != DONE) return e;
			if (!prune || !(x.k == K_LIST ? x.l.empty() : x.m.empty())) return DONE;
		}
		if (s.i + 1 == c.l.size()) c.l.pop_back(); else c.l[s.i] = MV::Null();
	} else {
		auto f = c.m.find(s.k);
		if (f == c.m.end()) return DONE;
		if (!last) {
			MV &x = f->second;
			if (prune && x.k != K_LIST && x.k != K_MAP) return UNCLEAR;
			Erased e = erase_at(x, p, n + 1, prune);
			if (e != DONE) return e;
			if (!prune || !(x.k == K_LIST ? x.l.empty() : x.m.empty())) return DONE;
		}
		c.m.erase(f);
	}
	return DONE;
}

static EqOpt exact() { EqOpt e; e.exact_int_kind = true; return e; }
static void agree(const Variant &v, const MV &m, const char *key, const std::string &trace) {
	std::string d = diff(m, from_variant(v), exact());
	VH_CHECK(d.empty(), key, "model vs library: ", d, " | ", trace);
}

static void ops(Ctx &c) {
	Rng &r = c.rng;
	MV doc = r.chance(1, 6) ? MV::Null() : tree(r, 0);
	Variant v = to_variant(doc, r);
	std::string trace = show(doc, 400);
	int n = r.range(3, 25);
	for (int k = 0; k < n; ++k) {
		P p = gen_path(r, doc);
		Path rp = real(p);
		std::string txt = text(p, r);
		bool bytext = r.coin() && !(p.size() && !p.back().idx && p.back().k.empty());
		int op = r.below(8);
		const MV *at = 0;
		Found f = lookup(doc, p, at);
		std::string step;
		bool raised = false;
		std::string what;
		const Variant &cv = v;
		switch (op) {
		case 0: case 1: {
			MV val = tree(r, 2);
			step = cat("set ", pshow(p), " = ", show(val, 100), bytext ? " by text" : "");
			trace += "; " + step;
			describe(trace);
			Variant nv = to_variant(val, r);
			bool can = can_set(doc, p);
			try { if (bytext) v.SetPath(txt, nv); else v.SetPath(rp, nv); } catch (const std::exception &e) { raised = true; what = e.what(); }
			VH_CHECK(raised == !can, can ? "set-refused" : "set-accepted", step, " ", what, " | ", trace);
			if (can) set(doc, p, val);
			agree(v, doc, can ? "set-wrong" : "failed-set-changed-value", trace);
			count(can ? "set" : "set-refused");
			break;
		}
		case 2: {
			step = cat("get ", pshow(p), bytext ? " by text" : "");
			trace += "; " + step;
			describe(trace);
			MV got;
			bool key_error = false;
			try { Variant g = bytext ? cv.GetPath(txt) : cv.GetPath(rp); got = from_variant(g); } catch (const KeyError &e) { raised = true; key_error = true; } catch (const std::out_of_range &e) { raised = true; key_error = true; } catch (const std::exception &e) { raised = true; what = e.what(); }
			VH_CHECK(raised == (f != HERE), "get-wrong", step, raised ? " raised " : " returned ", what, " | ", trace);
			if (f == ABSENT) VH_CHECK(key_error, "get-wrong-error", step, " raised ", what, " | ", trace);
			if (!raised) VH_CHECK(same(*at, got, exact()), "get-wrong", step, " gave ", show(got, 200), " | ", trace);
			count(raised ? "get-absent" : "get");
			break;
		}
		case 3: {
			MV def = MV::Str("default");
			step = cat("get-default ", pshow(p));
			trace += "; " + step;
			describe(trace);
			MV got = from_variant(bytext ? cv.GetPath(txt, to_variant(def)) : cv.GetPath(rp, to_variant(def)));
			VH_CHECK(same(f == HERE ? *at : def, got, exact()), "get-default-wrong", step, " gave ", show(got, 200), " | ", trace);
			count("get-default");
			break;
		}
		case 4: {
			step = cat("has ", pshow(p));
			trace += "; " + step;
			describe(trace);
			bool h = bytext ? cv.HasPath(txt) : cv.HasPath(rp);
			VH_CHECK(h == (f == HERE), "has-wrong", step, " gave ", h, " | ", trace);
			count("has");
			break;
		}
		case 5: {
			bool prune = r.coin();
			step = cat("erase ", pshow(p), prune ? " pruning" : "");
			MV next = doc;
			Erased e = erase_at(next, p, 0, prune);
			if (e == UNCLEAR || (prune && f == WRONG_TYPE)) break;
			trace += "; " + step;
			describe(trace);
			try { if (bytext) v.ErasePath(txt, prune); else v.ErasePath(rp, prune); } catch (const std::exception &x) { raised = true; what = x.what(); }
			// erasing below a value that is not a container may raise or do nothing, but changes nothing
			bool crosses = f == WRONG_TYPE;
			if (!crosses) VH_CHECK(raised == (e == RAISES), "erase-wrong", step, " ", what, " | ", trace);
			if (e == DONE && !crosses) doc = next;
			agree(v, doc, "erase-wrong", trace);
			count(prune ? "erase-prune" : "erase");
			break;
		}
		case 6: {
			step = cat("reference ", pshow(p));
			trace += "; " + step;
			describe(trace);
			if (f == HERE) {
				VariantRef x = bytext ? v.AtPath(txt) : v.AtPath(rp);
				VH_CHECK(same(*at, from_variant(x), exact()), "at-wrong", step, " | ", trace);
				const Variant &cx = bytext ? cv.AtPath(txt) : cv.AtPath(rp);
				VH_CHECK(same(*at, from_variant(cx), exact()), "at-wrong", step, " | ", trace);
				if (r.coin()) {
					MV val = tree(r, 3);
					trace += " := " + show(val, 100);
					Variant nv = to_variant(val);
					x = nv;
					set(doc, p, val);
				}
			} else if (can_set(doc, p) && !p.empty()) {
				MV val = tree(r, 3);
				trace += cat(" default ", show(val, 100));
				Variant nv = to_variant(val);
				VariantRef x = bytext ? v.AtPath(txt, nv) : v.AtPath(rp, nv);
				set(doc, p, val);
				VH_CHECK(same(val, from_variant(x), exact()), "at-wrong", step, " | ", trace);
			} else {
				bool rs = false;
				try { from_variant(cv.AtPath(rp)); } catch (const std::exception &) { rs = true; }
				VH_CHECK(rs, "at-wrong", step, " did not raise | ", trace);
			}
			agree(v, doc, "at-wrong", trace);
			count("reference");
			break;
		}
		default: {
			// text form
			step = cat("text ", pshow(p));
			describe(step);
			std::string s = PathString(rp);
			Path back = ParsePath(s);
			bool tail = p.size() && !p.back().idx && p.back().k.empty();    // "/" at the end is ignored by the documentation
			if (!tail) {
				VH_CHECK(back.size() == p.size(), "path-text-round-trip", step, " as ", printable(s));
				for (size_t i = 0; i < p.size(); ++i) VH_CHECK(p[i].idx ? back[i].IsNumber() && back[i].AsUnsigned() == p[i].i : back[i].IsString() && back[i].AsString() == p[i].k, "path-text-round-trip", step, " as ", printable(s), " element ", i);
				Path b2 = ParsePath(txt);
				VH_CHECK(b2.size() == p.size(), "path-text-meaning", step, " from ", printable(txt));
				for (size_t i = 0; i < p.size(); ++i) VH_CHECK(p[i].idx ? b2[i].IsNumber() && b2[i].AsUnsigned() == p[i].i : b2[i].IsString() && b2[i].AsString() == p[i].k, "path-text-meaning", step, " from ", printable(txt), " element ", i);
			}
			count("text");
			nontrivial(hash(s));
		}
		}
		nontrivial(mix(mix(op, f), mix(hash(pshow(p)), shape(doc))));
		if (nodes(doc) > 5000) break;
	}
	sample(trace.substr(0, 700));
}

static void malformed(Rng &r) {
	static const char *bad[] = { "x", "", "-1", "1x", "x1", " ", "1.5", "4294967296", "99999999999999999999", "0x1", "1 2", "+" };
	std::string pre = r.coin() ? "/a" : r.coin() ? "/a[0]" : "";
	std::string s;
	switch (r.below(4)) {
	case 0: s = pre + "[" + r.pick(bad) + "]" + (r.coin() ? "/b" : ""); break;
	case 1: s = pre + "[" + cat(r.below(50)); break;
	case 2: s = pre + "["; break;
	default: s = pre + "/k\\"; break;
	}
	describe(s);
	bool raised = false;
	try { ParsePath(s); } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "malformed-path-accepted", printable(s));
	Variant v = Variant::MapType;
	v["a"].Append(1);
	Variant copy = v.Copy();
	raised = false;
	try { v.SetPath(s, Variant(2)); } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised && v == copy, "malformed-path-accepted", "set ", printable(s));
	count("malformed");
	nontrivial(hash(s));
}

static void huge(Rng &r) {
	unsigned i = r.coin() ? 0xffffffffu : 0xffffffffu - r.below(1000);
	describe(cat("index ", i));
	Variant v = Variant::ListType;
	v.Append(1).Append("two");
	Variant keep = v.Copy();
	bool raised = false;
	try {
		switch (r.below(4)) {
		case 0: v.SetPath(cat("[", i, "]"), Variant(3)); break;
		case 1: v.Set(i, Variant(3)); break;
		case 2: v[i] = Variant(3); break;
		default: v.At(i, Variant(3)); break;
		}
	} catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "huge-index-accepted", i);
	VH_CHECK(v == keep, "huge-index-changed-value", i, " ", show(from_variant(v), 200));
	VH_CHECK(!v.HasPath(cat("[", i, "]")) && v.GetPath(cat("[", i, "]"), 9).AsInt() == 9 && !v.Contains(i), "huge-index-present", i);
	v.Erase(i);
	VH_CHECK(v == keep, "huge-index-changed-value", i);
	count("huge-index");
}

static void one(Ctx &c) {
	if (c.rng.chance(1, 12)) malformed(c.rng);
	else if (c.rng.chance(1, 60)) huge(c.rng);
	else ops(c);
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
