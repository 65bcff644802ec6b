// V24: flatten and expand, recursive difference and update.
#include "model.h"
#include <Variant/Extensions.h>
using namespace vh;
using namespace libvariant;

static std::string key(Rng &r, char avoid) {
	static const char *pool[] = { "a", "b", "c", "name", "x1", "0", "42", "k v", "\xc3\xa9", "a-b", "UP", "_" };
	std::string k;
	do k = pool[r.below(12)]; while (k.find(avoid) != std::string::npos);
	return k;
}
static bool nulls;
static MV scalar(Rng &r) {
	if (nulls && r.chance(1, 8)) return MV::Null();
	Gen g;
	g.nulls = false;
	MV s;
	do s = gen_scalar(r, g); while (s.k == K_NULL || (s.k == K_FLOAT && s.f == 0));
	return s;
}
// empties: containers may be empty
static MV tree(Rng &r, char avoid, bool lists, bool empties, int level = 0) {
	int k = level == 0 ? 4 : r.below(level > 3 ? 3 : 8);
	if (k < 3) return scalar(r);
	if (lists && k == 3) {
		MV l = MV::List();
		for (int n = r.below(4) + (empties ? 0 : 1); n > 0; --n) l.l.push_back(tree(r, avoid, lists, empties, level + 1));
		return l;
	}
	MV m = MV::Map();
	for (int n = r.below(4) + (empties ? 0 : 1); n > 0; --n) m.m[key(r, avoid)] = tree(r, avoid, lists, empties, level + 1);
	return m;
}
struct Style { std::string prefix, delim, ipre, isuf; bool simple; };
static bool simple_list(const MV &v) {
	if (v.k != K_LIST) return false;
	for (size_t i = 0; i < v.l.size(); ++i) if (v.l[i].k == K_LIST || v.l[i].k == K_MAP) return false;
	return true;
}
static void flat(const MV &v, const Style &s, const std::string &at, std::map<std::string, MV> &out) {
	if (v.k == K_LIST && !(s.simple && simple_list(v))) {
		for (size_t i = 0; i < v.l.size(); ++i) flat(v.l[i], s, at + s.ipre + cat(i) + s.isuf, out);
	} else if (v.k == K_MAP) {
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i)
			flat(i->second, s, (at.empty() ? s.prefix : at + s.delim) + i->first, out);
	} else out[at] = v;
}

// changes all that can be changed in place
static void scribble(VariantRef v) {
	if (v.IsMap()) {
		std::vector<std::string> keys;
		for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) keys.push_back(i->first);
		for (size_t i = 0; i < keys.size(); ++i) scribble(v[keys[i]]);
		v.Set("changed", 1);
	} else if (v.IsList()) {
		for (unsigned i = 0; i < v.Size(); ++i) scribble(v[i]);
		v.Append(1);
	} else if (v.IsString()) v.Clear();
}
// Marks that are not what they must be are reported, missing ones are filled in.
static void marks(Rng &r, const Variant &good) {
	static const char *names[] = { "pathPrefix", "pathDelimiter", "indexPrefix", "indexSuffix", "listDelimiter" };
	Variant p = good.Copy();
	std::string k = names[r.below(5)];
	MV bad;
	switch (r.below(4)) {
	case 0: bad = MV::Str(r.coin() ? "ab" : "[["); break;
	case 1: bad = MV::Int(r.below(10)); break;
	case 2: bad = MV::List(); break;
	default: bad = k == "pathPrefix" || k == "indexSuffix" ? MV::Str("//") : MV::Str("");
	}
	p[k] = to_variant(bad);
	bool raised = false;
	try { ExtensionParams(p); } catch (const std::exception &) { raised = true; }
	VH_CHECK(raised, "bad-mark-accepted", k, " ", show(bad));
	Variant q = good.Copy();
	q.Erase(k);
	ExtensionParams(q);
	static const char *usual[] = { "", "/", "[", "]", "," };
	for (int i = 0; i < 5; ++i) VH_CHECK(q[names[i]].AsString() == (k == names[i] ? usual[i] : good[names[i]].AsString()), "mark-default", names[i], " ", SerializeJSON(q));
	count("marks");
}
static void flatten(Ctx &c) {
	Rng &r = c.rng;
	nulls = false;
	Style s;
	s.prefix = r.chance(1, 4) ? "/" : "";
	static const char *delims[] = { "/", ".", ":", "|", "#", "~", ";" };
	s.delim = r.coin() ? "/" : delims[r.below(7)];
	bool plain_index = r.chance(3, 4);
	s.ipre = plain_index ? "[" : "@";
	s.isuf = plain_index ? "]" : r.coin() ? "" : "$";
	s.simple = r.chance(1, 4);
	MV d = tree(r, s.delim[0], r.chance(2, 3), false);
	Variant p = Variant::MapType;
	std::string comma = ",";
	bool defaults = s.prefix.empty() && s.delim == "/" && plain_index && !s.simple && r.coin();
	if (!defaults) {
		p["pathPrefix"] = s.prefix;
		p["pathDelimiter"] = s.delim;
		p["indexPrefix"] = s.ipre;
		p["indexSuffix"] = s.isuf;
		p["noSimpleLists"] = !s.simple;
		static const char *between[] = { ",", ";", " ", "|" };
		comma = between[r.below(4)];
		p["listDelimiter"] = comma;
	}
	ExtensionParams(p);
	if (r.chance(1, 10)) marks(r, p);
	describe(cat(show(d, 3000), " params ", SerializeJSON(p)));
	Variant v = to_variant(d);
	MV pm = from_variant(p);
	Variant f = defaults ? FlattenPath(v) : FlattenPath(v, p);
	VH_CHECK(diff(d, from_variant(v)).empty(), "flatten-changed-input", diff(d, from_variant(v)));
	VH_CHECK(diff(pm, from_variant(p)).empty(), "flatten-changed-params", diff(pm, from_variant(p)));
	MV want = MV::Map();
	flat(d, s, "", want.m);
	std::string x = diff(want, from_variant(f));
	VH_CHECK(x.empty(), "flatten", x, " | ", show(d), " gave ", show(from_variant(f)), " params ", SerializeJSON(p));
	count("flatten");
	// the path text of the library itself has these, so it can be undone
	if (plain_index && s.prefix.empty()) {
		MV fm = from_variant(f);
		Variant e = defaults ? ExpandPath(f) : ExpandPath(f, p);
		x = diff(d, from_variant(e));
		VH_CHECK(x.empty(), "expand", x, " | ", show(d), " flat ", show(fm), " gave ", show(from_variant(e)));
		VH_CHECK(diff(fm, from_variant(f)).empty(), "expand-changed-input", diff(fm, from_variant(f)));
		count("expand");
	}
	bool blob = show(d, 100000).find("blob(") != std::string::npos;
	if (!blob) {
		std::map<std::string, std::string> m = FlattenPathToStrStrMap(v, p);
		VH_CHECK(m.size() == want.m.size(), "text-map-size", m.size(), " and ", want.m.size(), " for ", show(d));
		for (std::map<std::string, MV>::iterator i = want.m.begin(); i != want.m.end(); ++i) {
			VH_CHECK(m.count(i->first), "text-map-key", i->first, " for ", show(d));
			std::string w;
			if (i->second.k == K_LIST) { for (size_t j = 0; j < i->second.l.size(); ++j) w += (j ? comma : "") + to_variant(i->second.l[j]).AsString(); }
			else w = to_variant(i->second).AsString();
			VH_CHECK(m[i->first] == w, "text-map-value", i->first, ": ", m[i->first], " and ", w);
		}
		count("text-map");
	} else if (show(want, 1000000).find("blob(") != std::string::npos) {
		bool raised = false;
		try { FlattenPathToStrStrMap(v, p); } catch (const std::exception &) { raised = true; }
		bool listed = false;
		for (std::map<std::string, MV>::iterator i = want.m.begin(); i != want.m.end(); ++i) if (i->second.k == K_BLOB) listed = true;
		VH_CHECK(raised || !listed, "text-map-of-data", show(d));
		count("data-has-no-text");
	}
	scribble(f);
	VH_CHECK(diff(d, from_variant(v)).empty(), "flatten-shares", diff(d, from_variant(v)), " | ", show(d));
	nontrivial(mix(hash(show(d, 5000)), hash(s.prefix + s.delim + s.ipre)));
	sample(printable(show(d, 200), 250));
}

static bool eq(const MV &a, const MV &b) { return to_variant(a) == to_variant(b); }
// What differs: keys of the second that are absent from or unequal to the first, below maps as deep as possible.
static bool m_diff(const MV &base, const MV &cmp, MV &out) {
	if (base.k == K_MAP && cmp.k == K_MAP) {
		out = MV::Map();
		for (std::map<std::string, MV>::const_iterator i = cmp.m.begin(); i != cmp.m.end(); ++i) {
			std::map<std::string, MV>::const_iterator j = base.m.find(i->first);
			MV d;
			if (j == base.m.end()) out.m[i->first] = i->second;
			// a value that became null or an empty map is not reported
			else if (m_diff(j->second, i->second, d) && d.k != K_NULL && !(d.k == K_MAP && d.m.empty())) out.m[i->first] = d;
		}
		return !out.m.empty();
	}
	if (eq(base, cmp)) return false;
	out = cmp;
	return true;
}
static void m_update(MV &base, const MV &u) {
	if (u.k == K_NULL) return;
	if (u.k == K_MAP && base.k == K_MAP) {
		for (std::map<std::string, MV>::const_iterator i = u.m.begin(); i != u.m.end(); ++i) {
			if (base.m.count(i->first)) m_update(base.m[i->first], i->second);
			else base.m[i->first] = i->second;
		}
		return;
	}
	MV c = u;
	base = c;
}
static void mutate(Rng &r, MV &v, int level = 0) {
	if (v.k != K_MAP || v.m.empty() || r.chance(1, 6)) {
		if (level == 0) v.m[key(r, 0x7f)] = tree(r, 0x7f, true, true, 2);
		else v = tree(r, 0x7f, true, true, 2);
		return;
	}
	std::map<std::string, MV>::iterator i = v.m.begin();
	std::advance(i, r.below(v.m.size()));
	if (r.chance(1, 5)) v.m.erase(i);
	else if (r.chance(1, 4)) v.m[key(r, 0x7f)] = tree(r, 0x7f, true, true, 2);
	else mutate(r, i->second, level + 1);
}

static void difference(Ctx &c) {
	Rng &r = c.rng;
	nulls = r.coin();
	MV a = tree(r, 0x7f, true, true), b = a;
	if (r.chance(1, 5)) b = tree(r, 0x7f, true, true);
	else for (int n = r.below(5); n > 0; --n) mutate(r, b);
	describe(cat(show(a, 2000), " and ", show(b, 2000)));
	Variant va = to_variant(a), vb = to_variant(b);
	Variant d = RDiff(va, vb);
	VH_CHECK(diff(a, from_variant(va)).empty(), "difference-changed-base", diff(a, from_variant(va)));
	VH_CHECK(diff(b, from_variant(vb)).empty(), "difference-changed-other", diff(b, from_variant(vb)));
	MV want;
	if (!m_diff(a, b, want)) want = MV::Map();
	MV got = from_variant(d);
	std::string x = diff(want, got);
	VH_CHECK(x.empty(), "difference", x, " | ", show(a), " and ", show(b), " gave ", show(got));
	count(want.m.empty() ? "no-difference" : "difference");
	// applied to the first
	Variant u = va.Copy();
	RUpdate(u, d);
	MV wu = a;
	m_update(wu, want);
	x = diff(wu, from_variant(u));
	VH_CHECK(x.empty(), "update", x, " | ", show(a), " with ", show(got), " gave ", show(from_variant(u)));
	VH_CHECK(diff(want, from_variant(d)).empty(), "update-changed-difference", diff(want, from_variant(d)));
	MV left;
	VH_CHECK(!m_diff(wu, b, left), "update-incomplete", show(a), " and ", show(b), " left ", show(left));
	scribble(u);
	VH_CHECK(diff(want, from_variant(d)).empty(), "update-shares", diff(want, from_variant(d)), " | ", show(a), " and ", show(b));
	scribble(d);
	VH_CHECK(diff(b, from_variant(vb)).empty() && diff(a, from_variant(va)).empty(), "difference-shares", diff(b, from_variant(vb)), " | ", show(a), " and ", show(b));
	// arbitrary update, nothing shared afterwards
	Variant w = to_variant(a), up = to_variant(b);
	RUpdate(w, up);
	MV ww = a;
	m_update(ww, b);
	x = diff(ww, from_variant(w));
	VH_CHECK(x.empty(), "any-update", x, " | ", show(a), " with ", show(b), " gave ", show(from_variant(w)));
	for (int k = 0; k < 3; ++k) {
		// change something in a map or list of the result
		VariantRef at = w;
		while (at.IsMap() && at.Size() && r.chance(4, 5)) {
			Variant::MapIterator i = at.MapBegin();
			std::advance(i, r.below(at.Size()));
			std::string name = i->first;
			VariantRef next = at[name];
			if (!next.IsMap() && !next.IsList()) break;
			at.ReassignRef(next);
		}
		if (at.IsMap()) at.Set("changed", 1);
		else if (at.IsList()) at.Append(1);
	}
	VH_CHECK(diff(b, from_variant(up)).empty(), "update-shares", diff(b, from_variant(up)), " | ", show(a), " with ", show(b));
	count("update");
	nontrivial(hash(show(a, 3000) + show(b, 3000)));
}
static void one(Ctx &c) { if (c.rng.coin()) flatten(c); else difference(c); }
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
