// V21: schema defaults.
#include "model.h"
#include <set>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
using namespace vh;
using namespace libvariant;

// What a schema says about one place: its default and its parts. Whether a
// place has a default and which is a matter of the place alone, so the parts of
// a schema that speak of the same place agree.
struct Node {
	Node() : has(false), each(0) {}
	~Node() { delete each; for (std::map<std::string, Node *>::iterator i = props.begin(); i != props.end(); ++i) delete i->second; for (size_t i = 0; i < tuple.size(); ++i) delete tuple[i]; }
	bool has;
	MV value;
	std::map<std::string, Node *> props;
	Node *each;
	std::vector<Node *> tuple;
private:
	Node(const Node &);
	void operator=(const Node &);
};

static const char *NAMES[] = { "a", "b", "c", "name", "x y", "id", "$ref", "default", "enum", "properties", "\xc3\xa9", "a/b" };
static std::string name(Rng &r) { return NAMES[r.chance(1, 4) ? 5 + r.below(7) : r.below(5)]; }
static MV scalar(Rng &r) {
	switch (r.below(6)) {
	case 0: return MV::Bool(r.coin());
	case 1: return MV::Int(r.range(-5, 5));
	case 2: return MV::Float(r.range(-8, 8) / 4.0);
	case 3: return MV::Str("");
	case 4: return MV::Int(0);
	default: return MV::Str(cat("s", r.below(9)));
	}
}
static MV gen_document(Rng &r, int level = 0) {
	int k = level == 0 ? (r.chance(1, 8) ? r.below(8) : 7) : r.below(level > 3 ? 4 : 8);
	if (k < 4) return scalar(r);
	if (k < 6) {
		MV l = MV::List();
		for (int n = level < 3 && r.chance(1, 12) ? r.range(5, 12) : r.below(4); n > 0; --n) l.l.push_back(gen_document(r, level + 1));
		if (l.l.size() > 4) count("long-list");
		return l;
	}
	MV m = MV::Map();
	for (int n = r.chance(1, 12) ? r.range(4, 8) : r.below(4); n > 0; --n) m.m[name(r)] = gen_document(r, level + 1);
	return m;
}
static MV default_value(Rng &r) {
	switch (r.below(6)) {
	case 0: case 1: {
		MV m = MV::Map();
		for (int n = r.below(3); n > 0; --n) m.m[name(r)] = r.chance(1, 4) ? MV::Map() : scalar(r);
		return m;
	}
	case 2: {
		MV l = MV::List();
		for (int n = r.below(3); n > 0; --n) l.l.push_back(r.chance(1, 4) ? MV::Map() : scalar(r));
		return l;
	}
	default: return scalar(r);
	}
}
// the values found at a place; absent when some holder of the place lacks it
static Node *describe_place(Rng &r, const std::vector<const MV *> &at, bool absent, int level) {
	Node *n = new Node;
	if (level > 0 ? r.chance(1, 2) : r.chance(1, 8)) { n->has = true; n->value = default_value(r); }
	std::vector<const MV *> all = at;
	if (absent && n->has) all.push_back(&n->value);
	if (level > 4) return n;
	bool maps = absent && !n->has && r.chance(1, 2), lists = false, empty = false;
	for (size_t i = 0; i < all.size(); ++i) { maps = maps || all[i]->k == K_MAP; lists = lists || all[i]->k == K_LIST; empty = empty || (all[i]->k == K_LIST && all[i]->l.empty()); }
	if (maps && r.chance(7, 8)) {
		std::map<std::string, bool> names;
		for (size_t i = 0; i < all.size(); ++i) for (std::map<std::string, MV>::const_iterator j = all[i]->m.begin(); j != all[i]->m.end(); ++j) if (r.chance(3, 4)) names[j->first];
		for (int k = r.below(3); k > 0; --k) names[name(r)];
		for (std::map<std::string, bool>::iterator j = names.begin(); j != names.end(); ++j) {
			std::vector<const MV *> in;
			bool lacks = absent && !n->has;
			for (size_t i = 0; i < all.size(); ++i) if (all[i]->k == K_MAP) { std::map<std::string, MV>::const_iterator f = all[i]->m.find(j->first); if (f == all[i]->m.end()) lacks = true; else in.push_back(&f->second); }
			n->props[j->first] = describe_place(r, in, lacks, level + 1);
		}
	}
	// a list to be made up, or an empty one, is left alone
	bool made = absent && (!n->has || n->value.k == K_LIST);
	if (lists && !made && !empty && r.chance(7, 8)) {
		std::vector<const MV *> in;
		const MV *only = 0;
		int count_lists = 0;
		for (size_t i = 0; i < all.size(); ++i) if (all[i]->k == K_LIST) { only = all[i]; ++count_lists; for (size_t j = 0; j < all[i]->l.size(); ++j) in.push_back(&all[i]->l[j]); }
		if (count_lists == 1 && r.chance(1, 3)) {
			size_t k = r.below(only->l.size() + 3);
			for (size_t j = 0; j < k; ++j) {
				std::vector<const MV *> one;
				if (j < only->l.size()) one.push_back(&only->l[j]);
				Node *e = describe_place(r, one, one.empty(), level + 1);
				// elements past the end follow each other
				if (one.empty() && !e->has) { e->has = true; e->value = scalar(r); for (std::map<std::string, Node *>::iterator p = e->props.begin(); p != e->props.end(); ++p) delete p->second; e->props.clear(); }
				n->tuple.push_back(e);
			}
		} else n->each = describe_place(r, in, false, level + 1);
	}
	return n;
}
// returns whether there is a value afterwards
static size_t added;
static bool fill(const Node &n, MV &v, bool there) {
	if (!there && n.has) { v = n.value; there = true; ++added; }
	if (!there || v.k == K_MAP) {
		for (std::map<std::string, Node *>::const_iterator i = n.props.begin(); i != n.props.end(); ++i) {
			std::map<std::string, MV>::iterator f = there ? v.m.find(i->first) : v.m.end();
			bool had = there && f != v.m.end();
			MV part = had ? f->second : MV();
			if (!fill(*i->second, part, had)) continue;
			if (!there) { v = MV::Map(); there = true; }
			v.m[i->first] = part;
		}
	}
	if (there && v.k == K_LIST) {
		if (n.each) for (size_t i = 0; i < v.l.size(); ++i) fill(*n.each, v.l[i], true);
		for (size_t i = 0; i < n.tuple.size(); ++i) {
			if (i < v.l.size()) fill(*n.tuple[i], v.l[i], true);
			else { MV e; if (!fill(*n.tuple[i], e, false)) break; v.l.push_back(e); }
		}
	}
	return there;
}

// ---- the schema text: the same said in many ways -----------------------------

struct Out {
	std::map<std::string, MV> *docs;
	MV defs;
	bool external;
};
static MV emit(Rng &r, const Node &n, Out &o, int level);
static MV emit_part(Rng &r, const Node &n, Out &o, int level, const std::set<std::string> *only, bool elements) {
	MV s = MV::Map();
	if (n.has) s.m["default"] = n.value;
	if (!n.props.empty()) {
		MV p = MV::Map();
		for (std::map<std::string, Node *>::const_iterator i = n.props.begin(); i != n.props.end(); ++i) if (!only || only->count(i->first)) p.m[i->first] = emit(r, *i->second, o, level + 1);
		if (!p.m.empty() || r.coin()) s.m["properties"] = p;
	}
	if (elements && n.each) s.m["items"] = emit(r, *n.each, o, level + 1);
	if (elements && !n.tuple.empty()) { MV l = MV::List(); for (size_t i = 0; i < n.tuple.size(); ++i) l.l.push_back(emit(r, *n.tuple[i], o, level + 1)); s.m["items"] = l; }
	// what has no part in defaults
	if (r.chance(1, 5)) s.m["type"] = MV::Str("object");
	if (r.chance(1, 10)) { MV no = MV::Map(); no.m["default"] = MV::Str("not this"); s.m[r.coin() ? "not" : "additionalProperties"] = no; count("ignored-keyword"); }
	if (r.chance(1, 10)) { MV no = MV::Map(), p = MV::Map(); no.m["default"] = MV::Str("nor this"); p.m[".*"] = no; s.m["patternProperties"] = p; count("ignored-keyword"); }
	return s;
}
static MV emit(Rng &r, const Node &n, Out &o, int level) {
	if (level > 6 || r.chance(1, 2)) return emit_part(r, n, o, level, 0, true);
	switch (r.below(4)) {
	case 0: {
		// behind a reference
		MV ref = MV::Map();
		if (o.external && r.coin()) {
			std::string at = cat("http://example.com/d/doc", o.docs->size());
			(*o.docs)[at] = MV();
			Out in;
			in.docs = o.docs;
			in.defs = MV::Map();
			in.external = true;
			MV body = emit(r, n, in, level + 1);
			if (!in.defs.m.empty()) body.m["definitions"] = in.defs;
			(*o.docs)[at] = body;
			ref.m["$ref"] = MV::Str(at);
			count("external-reference");
		} else {
			std::string k = cat("def", o.defs.m.size());
			o.defs.m[k] = MV();
			MV body = emit(r, n, o, level + 1);
			o.defs.m[k] = body;
			ref.m["$ref"] = MV::Str("#/definitions/" + k);
			count("local-reference");
		}
		return ref;
	}
	default: {
		// in parts of a combination
		static const char *how[] = { "allOf", "anyOf", "oneOf" };
		std::vector<std::set<std::string> > who(r.range(1, 3) + 1);
		for (std::map<std::string, Node *>::const_iterator i = n.props.begin(); i != n.props.end(); ++i) { who[r.below(who.size())].insert(i->first); if (r.chance(1, 4)) who[r.below(who.size())].insert(i->first); }
		size_t elements = r.below(who.size());
		MV s = emit_part(r, n, o, level, &who[0], elements == 0);
		for (size_t i = 1; i < who.size(); ++i) {
			MV part = emit_part(r, n, o, level + 1, &who[i], elements == i);
			MV &l = s.m[how[r.below(3)]];
			if (l.k != K_LIST) l = MV::List();
			l.l.push_back(part);
		}
		count("combination");
		return s;
	}
	}
}

// every container of the document gets a mark of its own
static int mark(Variant v, int &n) {
	if (v.IsMap()) {
		for (Variant::MapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) mark(i->second, n);
		v["\x01"] = ++n;
	} else if (v.IsList()) {
		for (Variant::ListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) mark(*i, n);
		v.Append(++n);
	}
	return n;
}
static bool marked(const MV &v, int &n) {
	if (v.k == K_MAP) {
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) if (i->first != "\x01" && !marked(i->second, n)) return false;
		std::map<std::string, MV>::const_iterator m = v.m.find("\x01");
		return m != v.m.end() && m->second.i + (int64_t)m->second.u == ++n;
	}
	if (v.k == K_LIST) {
		if (v.l.empty()) return false;
		for (size_t i = 0; i + 1 < v.l.size(); ++i) if (!marked(v.l[i], n)) return false;
		return v.l.back().i + (int64_t)v.l.back().u == ++n;
	}
	return true;
}

struct Missing { std::map<std::string, MV> *docs; };
static bool missing(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &e, void *ctx) {
	std::map<std::string, MV> &docs = *((Missing *)ctx)->docs;
	if (!docs.count(uri)) { e.AddError(uri, "not here"); return false; }
	l->AddSchema(uri, to_variant(docs[uri]));
	return true;
}

static void defaults(Ctx &c) {
	Rng &r = c.rng;
	MV doc = gen_document(r);
	bool absent = r.chance(1, 10);
	std::vector<const MV *> at;
	if (!absent) at.push_back(&doc);
	struct Hold { Node *n; ~Hold() { delete n; } } hold = { describe_place(r, at, absent, 0) };
	const Node &n = *hold.n;
	std::map<std::string, MV> docs;
	Out o;
	o.docs = &docs;
	o.defs = MV::Map();
	o.external = r.chance(1, 3);
	MV s = emit(r, n, o, 0);
	if (!o.defs.m.empty()) s.m["definitions"] = o.defs;
	std::string what = cat(absent ? "(nothing)" : show(doc, 1500), " with ", show(s, 3000));
	for (std::map<std::string, MV>::iterator i = docs.begin(); i != docs.end(); ++i) what += cat(" and ", i->first, " ", show(i->second, 800));
	describe(what);
	MV want = doc;
	added = 0;
	bool there = fill(n, want, !absent);
	Variant vs = to_variant(s);
	SchemaLoader loader;
	Missing m = { &docs };
	if (r.coin()) loader.SetMissingHandler(missing, &m);
	else for (std::map<std::string, MV>::iterator i = docs.begin(); i != docs.end(); ++i) loader.AddSchema(i->first, to_variant(i->second));
	Variant how = vs;
	bool by_address = r.chance(1, 4);
	if (by_address) { loader.AddSchema("http://example.com/m/main", vs); how = "http://example.com/m/main"; count("by-address"); }
	// the document is a value of its own or a place in another
	Variant holder;
	holder["before"] = 1;
	bool inside = absent || r.coin();
	Variant own;
	if (!absent) { if (inside) holder["doc"] = to_variant(doc); else own = to_variant(doc); }
	bool plain = docs.empty() && !by_address && r.coin();
	MV got;
	for (int round = 0; round < 3; ++round) {
		try {
			if (inside) AddSchemaDefaults(how, holder.At("doc"), plain ? 0 : &loader);
			else AddSchemaDefaults(how, own, plain ? 0 : &loader);
		} catch (const std::exception &e) { throw Fail("raised", cat(e.what(), " | ", what)); }
		VH_CHECK(!inside || holder.Contains("doc") == there, there ? "nothing-added" : "made-up", what);
		if (!there) break;
		got = from_variant(inside ? holder["doc"] : own);
		VH_CHECK(same(want, got), round ? "not-the-same-twice" : "differs", diff(want, got), " | ", what, " gave ", show(got, 1500), " expected ", show(want, 1500));
		VH_CHECK(diff(s, from_variant(vs)).empty(), "schema-changed", diff(s, from_variant(vs)), " | ", what);
	}
	VH_CHECK(!inside || (holder.Size() == 1u + there && holder["before"] == 1), "around", what);
	if (there) {
		// the result is a document of its own
		Variant v = inside ? holder["doc"] : own;
		int k = 0, seen = 0;
		mark(v, k);
		VH_CHECK(marked(from_variant(v), seen), "shared", what, " gave ", show(from_variant(v), 1500));
		VH_CHECK(diff(s, from_variant(vs)).empty(), "shared-with-schema", diff(s, from_variant(vs)), " | ", what);
		Variant again;
		again["doc"] = 0;
		if (absent) again.AsMap().erase("doc"); else again["doc"] = to_variant(doc);
		AddSchemaDefaults(how, again.At("doc"), plain ? 0 : &loader);
		again = again["doc"];
		VH_CHECK(same(want, from_variant(again)), "shared-with-schema", diff(want, from_variant(again)), " | ", what);
	}
	count(added ? "added" : "nothing-to-add");
	if (absent) count("no-document");
	if (!n.tuple.empty()) count("tuple");
	if (n.each) count("each");
	if (added) nontrivial(hash(what));
	sample(printable(what, 400));
}

// recursive schemas: ends, leaves what is there, fills in what is there
static MV tree(Rng &r, int level) {
	MV m = MV::Map();
	if (r.coin()) m.m["value"] = MV::Int(r.range(1, 9));
	if (level < 6 && r.chance(2, 3)) m.m["next"] = tree(r, level + 1);
	if (level < 4 && r.coin()) { MV l = MV::List(); for (int n = r.range(1, 3); n > 0; --n) l.l.push_back(tree(r, level + 1)); m.m["children"] = l; }
	return m;
}
static std::string kept(const MV &was, const MV &is, bool fills, const std::string &at) {
	if (was.k != is.k) return at + " changed kind";
	if (was.k == K_LIST) {
		if (is.l.size() != was.l.size()) return at + " changed length";
		for (size_t i = 0; i < was.l.size(); ++i) { std::string d = kept(was.l[i], is.l[i], fills, cat(at, "/", i)); if (!d.empty()) return d; }
		return "";
	}
	if (was.k != K_MAP) return diff(was, is);
	for (std::map<std::string, MV>::const_iterator i = was.m.begin(); i != was.m.end(); ++i) {
		std::map<std::string, MV>::const_iterator j = is.m.find(i->first);
		if (j == is.m.end()) return cat(at, "/", i->first, " is gone");
		std::string d = kept(i->second, j->second, fills, cat(at, "/", i->first));
		if (!d.empty()) return d;
	}
	if (fills && !was.m.count("value")) {
		std::map<std::string, MV>::const_iterator j = is.m.find("value");
		if (j == is.m.end()) return at + "/value not added";
		if (!same(j->second, MV::Int(7))) return at + "/value is not the default";
	}
	return "";
}
static void recursive(Ctx &c) {
	Rng &r = c.rng;
	MV doc = tree(r, 0);
	static const char *next[] = { "{\"$ref\":\"#\"}", "{\"$ref\":\"#/definitions/node\"}", "{\"default\":{},\"$ref\":\"#\"}", "{\"allOf\":[{\"$ref\":\"#\"}]}", "{\"anyOf\":[{\"$ref\":\"#/definitions/node\"},{\"$ref\":\"#\"}]}" };
	std::string node = cat("\"properties\":{\"value\":{\"default\":7},\"next\":", next[r.below(5)], ",\"children\":{\"items\":", next[r.below(5)], "}}");
	std::string text = cat("{", r.coin() ? node : std::string("\"$ref\":\"#/definitions/node\""), ",\"definitions\":{\"node\":{", node, "}}}");
	// "#" leads to a schema with the same meaning in both
	std::string what = cat(show(doc, 1500), " with ", text);
	describe(what);
	Variant s = DeserializeJSON(text), d = to_variant(doc);
	try { AddSchemaDefaults(s, d); }
	catch (const std::exception &e) { throw Fail("recursive-raised", cat(e.what(), " | ", what)); }
	MV got = from_variant(d);
	std::string diff = kept(doc, got, true, "$");
	VH_CHECK(diff.empty(), "recursive", diff, " | ", what, " gave ", show(got, 1500));
	count("recursive");
	nontrivial(hash(what));
}
static void one(Ctx &c) {
	if (c.rng.chance(1, 8)) recursive(c);
	else defaults(c);
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
