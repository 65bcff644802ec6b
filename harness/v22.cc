// V22: JSON pointer operations, V23 (--patch): JSON patches and diffs, against a model of RFC 6901 and RFC 6902.
#include "model.h"
#include <Variant/Extensions.h>
#include <Variant/Path.h>
using namespace vh;
using namespace libvariant;

struct Bad {};
typedef std::vector<std::string> Tokens;

static Tokens split(const std::string &p) {
	Tokens t;
	if (p.empty()) return t;
	if (p[0] != '/') throw Bad();
	std::string cur;
	for (size_t i = 1; i <= p.size(); ++i) {
		if (i == p.size() || p[i] == '/') { t.push_back(cur); cur.clear(); }
		else if (p[i] == '~') {
			if (i + 1 < p.size() && p[i + 1] == '0') cur += '~';
			else if (i + 1 < p.size() && p[i + 1] == '1') cur += '/';
			else throw Bad();
			++i;
		} else cur += p[i];
	}
	return t;
}
static std::string esc(const std::string &k) {
	std::string s;
	for (size_t i = 0; i < k.size(); ++i) { if (k[i] == '~') s += "~0"; else if (k[i] == '/') s += "~1"; else s += k[i]; }
	return s;
}
static size_t index_of(const std::string &t, size_t limit) {
	if (t.empty() || t.size() > 9 || (t[0] == '0' && t.size() > 1)) throw Bad();
	size_t v = 0;
	for (size_t i = 0; i < t.size(); ++i) { if (t[i] < '0' || t[i] > '9') throw Bad(); v = v * 10 + (t[i] - '0'); }
	if (v >= limit) throw Bad();
	return v;
}
static MV *step(MV *v, const std::string &t) {
	if (v->k == K_MAP) {
		std::map<std::string, MV>::iterator i = v->m.find(t);
		if (i == v->m.end()) throw Bad();
		return &i->second;
	}
	if (v->k == K_LIST) return &v->l[index_of(t, v->l.size())];
	throw Bad();
}
static MV *m_get(MV &d, const std::string &p) {
	Tokens t = split(p);
	MV *v = &d;
	for (size_t i = 0; i < t.size(); ++i) v = step(v, t[i]);
	return v;
}
static MV *parent(MV &d, const Tokens &t) {
	MV *v = &d;
	for (size_t i = 0; i + 1 < t.size(); ++i) v = step(v, t[i]);
	return v;
}
static void m_add(MV &d, const std::string &p, const MV &x) {
	Tokens t = split(p);
	if (t.empty()) { MV c = x; d = c; return; }
	MV *v = parent(d, t);
	if (v->k == K_MAP) v->m[t.back()] = x;
	else if (v->k == K_LIST) {
		size_t at = t.back() == "-" ? v->l.size() : index_of(t.back(), v->l.size() + 1);
		MV c = x;
		v->l.insert(v->l.begin() + at, c);
	} else throw Bad();
}
static MV m_remove(MV &d, const std::string &p) {
	Tokens t = split(p);
	if (t.empty()) throw Bad();          // never generated
	MV *v = parent(d, t);
	MV old = *step(v, t.back());
	if (v->k == K_MAP) v->m.erase(t.back());
	else v->l.erase(v->l.begin() + index_of(t.back(), v->l.size()));
	return old;
}
static void m_replace(MV &d, const std::string &p, const MV &x) { MV c = x; *m_get(d, p) = c; }
static void m_move(MV &d, const std::string &from, const std::string &to) {
	MV work = d;
	MV x = m_remove(work, from);
	m_add(work, to, x);
	d = work;
}
static void m_copy(MV &d, const std::string &from, const std::string &to) { MV x = *m_get(d, from); m_add(d, to, x); }
static bool number_eq(const MV &a, const MV &b);
static bool m_eq(const MV &a, const MV &b) {
	if (a.isnum() && b.isnum()) return number_eq(a, b);
	if (a.k != b.k) return false;
	if (a.k == K_LIST) {
		if (a.l.size() != b.l.size()) return false;
		for (size_t i = 0; i < a.l.size(); ++i) if (!m_eq(a.l[i], b.l[i])) return false;
		return true;
	}
	if (a.k == K_MAP) {
		if (a.m.size() != b.m.size()) return false;
		for (std::map<std::string, MV>::const_iterator i = a.m.begin(); i != a.m.end(); ++i) {
			std::map<std::string, MV>::const_iterator j = b.m.find(i->first);
			if (j == b.m.end() || !m_eq(i->second, j->second)) return false;
		}
		return true;
	}
	return same(a, b);
}
static bool number_eq(const MV &a, const MV &b) {
	__int128 x = 0, y = 0;
	if (a.k != K_FLOAT && b.k != K_FLOAT) {
		x = a.k == K_INT ? (__int128)a.i : (__int128)a.u;
		y = b.k == K_INT ? (__int128)b.i : (__int128)b.u;
		return x == y;
	}
	long double p = a.k == K_FLOAT ? (long double)a.f : a.k == K_INT ? (long double)a.i : (long double)a.u;
	long double q = b.k == K_FLOAT ? (long double)b.f : b.k == K_INT ? (long double)b.i : (long double)b.u;
	return p == q;
}

static const char *keys[] = { "a", "b", "c", "", "/", "~", "~1", "~0", "a/b", "m~n", "0", "1", "-", "01", "a b", "\xc3\xa9", "[0]", "..", "\\", "%25", "#" };
static MV doc(Rng &r, int level = 0) {
	static Gen g;
	g.blobs = false;
	int k = r.below(level > 3 ? 3 : 8);
	if (k < 3) {
		switch (r.below(4)) {
		case 0: return MV::Int(r.range(-2, 5));
		case 1: return MV::Str(keys[r.below(21)]);
		default: {
			MV s = gen_scalar(r, g);
			if (s.k == K_FLOAT && s.f == 0) s.f = 0;
			return s;
		}
		}
	}
	if (k < 6) {
		MV m = MV::Map();
		for (int n = r.below(5); n > 0; --n) m.m[keys[r.below(21)]] = doc(r, level + 1);
		return m;
	}
	MV l = MV::List();
	for (int n = r.below(5); n > 0; --n) l.l.push_back(doc(r, level + 1));
	return l;
}
static MV root(Rng &r) { MV d = doc(r); for (int i = 0; i < 3 && d.k != K_MAP && d.k != K_LIST; ++i) d = doc(r); return d; }

// The pointer to a random existing place.
static std::string place(Rng &r, const MV &d, MV const **at = 0) {
	const MV *v = &d;
	std::string p;
	while (r.chance(5, 6)) {
		if (v->k == K_MAP && !v->m.empty()) {
			std::map<std::string, MV>::const_iterator i = v->m.begin();
			std::advance(i, r.below(v->m.size()));
			p += "/" + esc(i->first);
			v = &i->second;
		} else if (v->k == K_LIST && !v->l.empty()) {
			size_t i = r.below(v->l.size());
			p += cat("/", i);
			v = &v->l[i];
		} else break;
	}
	if (at) *at = v;
	return p;
}
static std::string pointer(Rng &r, const MV &d) {
	const MV *v = 0;
	std::string p = place(r, d, &v);
	switch (r.below(12)) {
	case 0: case 1: case 2: case 3: return p;
	case 4: case 5: case 6:
		if (v->k == K_MAP) return p + "/" + esc(keys[r.below(21)]);
		if (v->k == K_LIST) return p + (r.coin() ? "/-" : cat("/", r.below(v->l.size() + 2)));
		return p;
	case 7: {
		static const char *odd[] = { "/-", "/01", "/+0", "/-1", "/ 0", "/0 ", "/1x", "/4294967296", "/4294967295", "/18446744073709551616", "/18446744073709551615", "/99999", "/00", "/0x0", "/1e0", "/", "/-/0", "/\t0", "/000", "/001", "/0000", "/00001" };
		return p + odd[r.below(22)];
	}
	case 8: { static const char *bad[] = { "/~2", "/~", "/a~", "/~/a", "/b~x" }; return p + bad[r.below(5)]; }
	case 9: return p + "/" + esc(keys[r.below(21)]) + "/" + esc(keys[r.below(21)]);
	case 10: return r.coin() ? "a" : "a" + p;
	default: return p.size() > 1 && r.coin() ? p.substr(1) : p;
	}
}

static void match(const Variant &d, const MV &m, const char *key, const std::string &what) {
	EqOpt o;
	std::string x = diff(m, from_variant(d), o);
	VH_CHECK(x.empty(), key, what, ": ", x, " | document is now ", show(from_variant(d)), " expected ", show(m));
}

static bool below(const std::string &from, const std::string &to) { return to.compare(0, from.size() + 1, from + "/") == 0; }

static void pointers(Ctx &c) {
	Rng &r = c.rng;
	MV m = root(r);
	Variant d = to_variant(m);
	std::string log = show(m);
	uint64_t h = shape(m);
	for (int n = r.range(1, 10); n > 0; --n) {
		int op = r.below(8);
		std::string p = pointer(r, m), q = pointer(r, m);
		MV x = doc(r, 2);
		MV want = m;
		bool ok = true;
		static const char *names[] = { "lookup", "add", "remove", "replace", "move", "copy", "assign", "form" };
		if ((op == 2 || op == 4) && p.empty()) continue;   // removing the whole document is not defined
		if (op == 4 && below(p, q)) continue;              // nor is moving something into itself
		std::string what = cat(names[op], " ", p, op == 4 || op == 5 ? " " + q : "");
		log += cat(" ; ", what, op == 1 || op == 3 || op == 6 ? " value " + show(x, 200) : "");
		describe(log);
		MV found;
		try {
			switch (op) {
			case 0: found = *m_get(want, p); break;
			case 1: m_add(want, p, x); break;
			case 2: m_remove(want, p); break;
			case 3: case 6: m_replace(want, p, x); break;
			case 4: m_move(want, p, q); break;
			case 5: m_copy(want, p, q); break;
			}
		} catch (const Bad &) { ok = false; want = m; }
		if (op == 7) {
			// a pointer formed from keys and indices
			p = place(r, m);
			Tokens t = split(p);
			Path path;
			const MV *v = &m;
			for (size_t i = 0; i < t.size(); ++i) {
				if (v->k == K_LIST) path.push_back(PathElement((unsigned)atoi(t[i].c_str())));
				else path.push_back(PathElement(t[i]));
				v = step((MV *)v, t[i]);
			}
			std::string f = FormJSONPointer(path);
			Tokens back;
			try { back = split(f); } catch (const Bad &) { throw Fail("form-invalid", cat("formed pointer ", f, " for ", p)); }
			VH_CHECK(back == t, "form-differs", "formed pointer ", f, " for ", p);
			found = *v;
			p = f;
			op = 0;
		}
		bool raised = false;
		std::string why;
		try {
			switch (op) {
			case 0: {
				VariantRef ref = JSONPointerLookup(p, d);
				if (!ref.Exists()) { raised = true; break; }
				std::string x = diff(found, from_variant(Variant(ref)));
				VH_CHECK(!ok || x.empty(), "lookup-value", what, ": ", x, " | ", log);
				break;
			}
			case 1: JSONPointerAdd(p, d, to_variant(x)); break;
			case 2: JSONPointerRemove(p, d); break;
			case 3: JSONPointerReplace(p, d, to_variant(x)); break;
			case 4: JSONPointerMove(p, q, d); break;
			case 5: JSONPointerCopy(p, q, d); break;
			default: {
				VariantRef ref = JSONPointerLookup(p, d);
				if (!ref.Exists()) { raised = true; break; }
				ref = to_variant(x);
			}
			}
		} catch (const Fail &) { throw; }
		catch (const std::exception &e) { raised = true; why = e.what(); }
		VH_CHECK(raised != ok, cat(names[op], ok ? "-refused" : "-accepted"), what, ok ? " was refused " : " was accepted ", why, " | ", log);
		match(d, want, cat(names[op], "-result").c_str(), cat(log));
		m = want;
		count(cat(names[op], ok ? "" : "-refused").c_str());
		h = mix(h, mix(hash(p + " " + q), op));
	}
	nontrivial(h);
	sample(printable(log, 300));
}

static MV member(MV o, const char *k, const MV &v) { o.m[k] = v; return o; }
static void patches(Ctx &c) {
	Rng &r = c.rng;
	MV m = root(r);
	Variant d = to_variant(m);
	if (r.chance(1, 3)) {
		// difference
		MV to = m;
		if (r.chance(1, 4)) to = root(r);
		else for (int n = r.below(5); n > 0; --n) {
			MV w = to;
			try {
				switch (r.below(4)) {
				case 0: m_add(w, pointer(r, w), doc(r, 2)); break;
				case 1: { std::string p = pointer(r, w); if (!p.empty()) m_remove(w, p); break; }
				case 2: m_replace(w, pointer(r, w), doc(r, 2)); break;
				default: { std::string p = pointer(r, w); if (!p.empty()) m_move(w, p, pointer(r, w)); }
				}
				to = w;
			} catch (const Bad &) {}
		}
		describe(cat("difference ", show(m), " to ", show(to)));
		Variant t = to_variant(to);
		Variant p = JSONDiff(d, t);
		match(d, m, "diff-changed-source", "JSONDiff");
		match(t, to, "diff-changed-target", "JSONDiff");
		MV pm = from_variant(p);
		VH_CHECK(pm.k == K_LIST, "diff-not-a-list", show(pm));
		Variant a = to_variant(m);
		std::pair<bool, std::string> res = JSONPatch(a, p);
		VH_CHECK(res.first, "diff-does-not-apply", res.second, " | from ", show(m), " to ", show(to), " patch ", show(pm));
		MV got = from_variant(a);
		VH_CHECK(m_eq(got, to), "diff-result", "from ", show(m), " to ", show(to), " patch ", show(pm), " gave ", show(got));
		// nothing is shared between what was patched and the target
		for (int k = 0; k < 4; ++k) {
			std::string p = place(r, to);
			try { MV w = to; m_add(w, p + "/new", MV::Int(1)); JSONPointerAdd(p + "/new", a, 1); }
			catch (const Bad &) { continue; }
			match(t, to, "diff-shares-target", "after changing the patched document");
		}
		count("difference");
		if (pm.l.empty()) count("no-difference");
		nontrivial(hash(show(m, 3000) + show(to, 3000)));
		return;
	}
	MV patch = MV::List(), want = m;
	bool ok = true, test_failed = false;
	int n = r.range(1, 8);
	for (int i = 0; i < n; ++i) {
		MV o = MV::Map();
		static const char *names[] = { "add", "remove", "replace", "move", "copy", "test" };
		int op = r.below(6);
		// mostly valid, so that long patches get somewhere
		std::string p, q;
		MV x = doc(r, 2), w = want;
		bool good = false;
		for (int tries = 0; tries < 6 && !good; ++tries) {
			p = pointer(r, want);
			q = pointer(r, want);
			x = op == 5 && r.chance(3, 4) ? MV() : doc(r, 2);
			w = want;
			try {
				switch (op) {
				case 0: m_add(w, p, x); break;
				case 1: m_remove(w, p); break;
				case 2: m_replace(w, p, x); break;
				case 3: if (q.empty()) throw Bad(); m_move(w, q, p); break;
				case 4: m_copy(w, q, p); break;
				default: { MV *at = m_get(w, p); if (x.k == K_NULL && r.chance(7, 8)) x = *at; if (!m_eq(*at, x)) throw Bad(); }
				}
				good = true;
			} catch (const Bad &) {
				if (r.chance(1, 8)) break;     // keep the bad one
			}
		}
		if ((op == 1 && p.empty()) || (op == 3 && (q.empty() || below(q, p)))) continue;
		o = member(o, "op", MV::Str(names[op]));
		o = member(o, "path", MV::Str(p));
		if (op == 0 || op == 2 || op == 5) o = member(o, "value", x);
		if (op == 3 || op == 4) o = member(o, "from", MV::Str(q));
		if (r.chance(1, 40)) {
			switch (r.below(5)) {
			case 0: o.m.erase("op"); break;
			case 1: o.m.erase("path"); break;
			case 2: if (!o.m.erase(op == 3 || op == 4 ? "from" : "value")) o.m["op"] = MV::Str("nothing"); break;
			case 3: o.m["op"] = MV::Str("nothing"); break;
			default: o.m["path"] = MV::List();
			}
			good = false;
		} else if (r.chance(1, 10)) o = member(o, "comment", MV::Str("ignored"));
		patch.l.push_back(o);
		if (!good) { ok = false; if (op == 5) test_failed = true; }
		if (ok) want = w;
		if (ok) count(names[op]);
	}
	if (patch.l.empty()) return;
	MV given = patch;
	if (patch.l.size() == 1 && r.coin()) given = patch.l[0];
	describe(cat("document ", show(m), " patch ", show(given)));
	Variant pv = to_variant(given);
	bool raised = false;
	std::pair<bool, std::string> res(false, "");
	try { res = JSONPatch(d, pv); } catch (const std::exception &e) { raised = true; res.second = e.what(); }
	bool applied = !raised && res.first;
	VH_CHECK(applied == ok, ok ? "patch-refused" : "patch-accepted", res.second, " | document ", show(m), " patch ", show(given));
	match(d, ok ? want : m, ok ? "patch-result" : "patch-not-undone", cat("document ", show(m), " patch ", show(given)));
	match(pv, given, "patch-changed", "the patch itself changed");
	if (ok) {
		// later changes of the document stay out of the patch
		Variant again = to_variant(m);
		VH_CHECK(JSONPatch(again, pv).first, "patch-not-repeatable", show(given));
		match(again, want, "patch-not-repeatable", show(given));
		for (int k = 0; k < 4; ++k) {
			std::string p = place(r, want);
			try { m_add(want, p + "/" + esc("new"), MV::Int(1)); JSONPointerAdd(p + "/" + esc("new"), d, 1); }
			catch (const Bad &) { continue; }
			match(d, want, "patched-document-shares-itself", cat("document ", show(m), " patch ", show(given), " then add below ", p));
		}
		match(pv, given, "patch-shares-document", show(given));
	}
	count(ok ? "applied" : test_failed ? "test-failed" : "failed");
	if (!ok && patch.l.size() > 2) count("rolled-back");
	nontrivial(hash(show(m, 3000) + show(given, 3000)));
	sample(printable(cat(show(m, 120), " patch ", show(given, 200)), 320));
}

int main(int argc, char **argv) {
	bool patch = false;
	for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--patch")) patch = true;
	return vh::run(argc, argv, patch ? patches : pointers);
}
