// V31: emitter parameters. They read back as set, act alike however they are
// given, and change the text in the documented way.
#include "io.h"
#include <math.h>
#include <yaml.h>
using namespace vh;
using namespace libvariant;

struct Param { std::string key; MV value; };
typedef std::vector<Param> Params;

static std::string show_params(const Params &p) {
	std::string s;
	for (size_t i = 0; i < p.size(); ++i) s += cat(i ? ", " : "", p[i].key, ": ", show(p[i].value));
	return s;
}
static const MV *find(const Params &p, const std::string &key) {
	for (size_t i = p.size(); i > 0; --i) if (p[i - 1].key == key) return &p[i - 1].value;
	return 0;
}
static const char *STYLES[] = { "any", "block", "flow" };
static const char *SCALARS[] = { "any", "plain", "single quoted", "double quoted", "literal", "folded" };

static MV gen_value(Rng &r, SerializeType t, const std::string &key) {
	if (key == "precision") return MV::Int(r.range(1, 25));
	if (key == "indent") return MV::Int(t == SERIALIZE_YAML ? r.range(2, 9) : r.chance(1, 8) ? r.range(10, 60) : r.below(9));
	if (key == "width") return MV::Int(r.range(20, 150));
	if (key == "map_style" || key == "list_style") return MV::Str(STYLES[r.below(3)]);
	if (key == "scalar_style") return MV::Str(SCALARS[r.below(6)]);
	return MV::Bool(r.coin());
}
static std::vector<std::string> keys_of(SerializeType t) {
	static const char *json[] = { "pretty", "indent", "precision", "strict" }, *xml[] = { "pretty", "indent", "precision" }, *bundle[] = { "precision" },
		*yaml[] = { "scalar_style", "map_style", "list_style", "implicit_document_begin", "implicit_document_end", "indent", "width", "precision" };
	switch (t) {
	case SERIALIZE_JSON: return std::vector<std::string>(json, json + 4);
	case SERIALIZE_XMLPLIST: return std::vector<std::string>(xml, xml + 3);
	case SERIALIZE_YAML: return std::vector<std::string>(yaml, yaml + 8);
	default: return std::vector<std::string>(bundle, bundle + 1);
	}
}
static Params gen_set(Rng &r, SerializeType t) {
	std::vector<std::string> k = keys_of(t);
	Params p;
	for (size_t i = 0; i < k.size(); ++i) if (r.coin()) { Param x = { k[i], gen_value(r, t, k[i]) }; p.push_back(x); }
	for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
	return p;
}
static Variant as_map(const Params &p) {
	Variant m = Variant::MapType;
	for (size_t i = 0; i < p.size(); ++i) m[p[i].key] = to_variant(p[i].value);
	return m;
}

// ---------------------------------------------------------------- reading the text

static double rounded(double f, int digits) {
	char b[80];
	snprintf(b, sizeof(b), "%.*e", digits - 1, f);
	return strtod(b, 0);
}
static bool round_floats(MV &v, int digits) {
	if (v.k == K_FLOAT && isfinite(v.f)) { v.f = rounded(v.f, digits); return isfinite(v.f); }
	for (auto &x : v.l) if (!round_floats(x, digits)) return false;
	for (auto &x : v.m) if (!round_floats(x.second, digits)) return false;
	return true;
}
static bool has_blob_or_nonfinite(const MV &v) {
	if (v.k == K_BLOB || (v.k == K_FLOAT && !isfinite(v.f))) return true;
	for (auto &x : v.l) if (has_blob_or_nonfinite(x)) return true;
	for (auto &x : v.m) if (has_blob_or_nonfinite(x.second)) return true;
	return false;
}

// Lines of pretty JSON begin with one indent for each open bracket.
static void check_json(const std::string &t, bool pretty, size_t indent) {
	if (!pretty) {
		VH_CHECK(t.find('\n') == std::string::npos || t.find('\n') + 1 == t.size(), "compact-json-lines", printable(t));
		count("json-compact");
		return;
	}
	int depth = 0;
	bool str = false, esc = false, start = true;
	size_t spaces = 0, lines = 0;
	for (size_t i = 0; i < t.size(); ++i) {
		char ch = t[i];
		if (str) { if (esc) esc = false; else if (ch == '\\') esc = true; else if (ch == '"') str = false; continue; }
		if (ch == '\n') { start = true; spaces = 0; ++lines; continue; }
		if (start) {
			if (ch == ' ') { ++spaces; continue; }
			start = false;
			size_t want = indent * (size_t)(ch == ']' || ch == '}' ? depth - 1 : depth);
			VH_CHECK(spaces == want, "json-indent", "line ", lines, " begins with ", spaces, " spaces instead of ", want, " in ", printable(t, 2000));
		}
		if (ch == '"') str = true;
		else if (ch == '[' || ch == '{') ++depth;
		else if (ch == ']' || ch == '}') --depth;
		else if (ch == ',') VH_CHECK(i + 1 < t.size() && t[i + 1] == '\n', "json-one-line", "no new line after a comma in ", printable(t, 2000));
	}
	count("json-pretty");
}
// Lines of a pretty property list begin with one indent for each open element.
static void check_xml(const std::string &t, bool pretty, size_t indent) {
	size_t i = t.find("<plist");
	if (i == std::string::npos) throw Fail("xml-no-plist", printable(t));
	if (!pretty || !indent) {
		size_t nl = t.find('\n', i);
		VH_CHECK(nl == std::string::npos || nl + 1 == t.size(), "compact-xml-lines", printable(t, 2000));
		count("xml-compact");
		return;
	}
	int depth = 0, lines = 0;
	while (i < t.size()) {
		if (t[i] == '<') {
			size_t b = i, spaces = 0;
			while (b > 0 && t[b - 1] == ' ') { --b; ++spaces; }
			bool first = b == 0 || t[b - 1] == '\n';
			bool close = t[i + 1] == '/';
			size_t e = t.find('>', i);
			if (e == std::string::npos) throw Fail("xml-unclosed", printable(t));
			bool empty = t[e - 1] == '/';
			if (close) --depth;
			if (first) {
				VH_CHECK(spaces == indent * (size_t)depth, "xml-indent", "line begins with ", spaces, " spaces instead of ", indent * (size_t)depth, " in ", printable(t, 2000));
				++lines;
			} else VH_CHECK(close, "xml-one-line", "an element does not begin a line in ", printable(t, 2000));
			if (!close && !empty) ++depth;
			i = e + 1;
		} else ++i;
	}
	count("xml-pretty");
}

static bool word(const std::string &s) {
	if (s.size() < 2) return false;
	for (size_t i = 0; i < s.size(); ++i) if (!(s[i] >= 'a' && s[i] <= 'z')) return false;
	static const char *no[] = { "null", "true", "false" };
	for (size_t i = 0; i < 3; ++i) if (s == no[i]) return false;
	return true;
}
struct Look { std::string scalar, map, list; int indent; bool maps_only; };
struct Events {
	yaml_parser_t p;
	yaml_event_t e;
	bool have;
	explicit Events(const std::string &t) : have(false) { yaml_parser_initialize(&p); yaml_parser_set_input_string(&p, (const unsigned char *)t.data(), t.size()); }
	~Events() { if (have) yaml_event_delete(&e); yaml_parser_delete(&p); }
	void next() {
		if (have) yaml_event_delete(&e);
		have = false;
		if (!yaml_parser_parse(&p, &e)) throw Fail("yaml-malformed", p.problem ? p.problem : "?");
		have = true;
	}
};
// d is the document, so what is text is known.
static void check_node(Events &e, const MV &d, const Look &k, bool flow, bool key, int depth) {
	if (d.k == K_LIST) {
		bool f = e.e.data.sequence_start.style == YAML_FLOW_SEQUENCE_STYLE;
		VH_CHECK(e.e.type == YAML_SEQUENCE_START_EVENT, "yaml-structure", "not a list");
		if (!d.l.empty() && !flow) {
			if (k.list == "block") { VH_CHECK(!f, "list-style", "a list is not in block style"); count("list-block"); }
			if (k.list == "flow") { VH_CHECK(f, "list-style", "a list is not in flow style"); count("list-flow"); }
		}
		e.next();
		for (size_t i = 0; i < d.l.size(); ++i) { check_node(e, d.l[i], k, flow || f, false, depth + 1); e.next(); }
		VH_CHECK(e.e.type == YAML_SEQUENCE_END_EVENT, "yaml-structure", "list does not end");
	} else if (d.k == K_MAP) {
		VH_CHECK(e.e.type == YAML_MAPPING_START_EVENT, "yaml-structure", "not a map");
		bool f = e.e.data.mapping_start.style == YAML_FLOW_MAPPING_STYLE;
		if (!d.m.empty() && !flow) {
			if (k.map == "block") { VH_CHECK(!f, "map-style", "a map is not in block style"); count("map-block"); }
			if (k.map == "flow") { VH_CHECK(f, "map-style", "a map is not in flow style"); count("map-flow"); }
		}
		e.next();
		for (size_t i = 0; i < d.m.size(); ++i) {
			std::string name((const char *)e.e.data.scalar.value, e.e.data.scalar.length);
			VH_CHECK(e.e.type == YAML_SCALAR_EVENT && d.m.count(name), "yaml-structure", "unknown key");
			if (k.maps_only && !f && k.indent > 0) {
				VH_CHECK(e.e.start_mark.column == (size_t)(depth * k.indent), "yaml-indent", "a key at depth ", depth, " begins in column ", e.e.start_mark.column, " with an indent of ", k.indent);
				count("yaml-indented");
			}
			check_node(e, MV::Str(name), k, flow || f, true, depth + 1);
			e.next();
			check_node(e, d.m.find(name)->second, k, flow || f, false, depth + 1);
			e.next();
		}
		VH_CHECK(e.e.type == YAML_MAPPING_END_EVENT, "yaml-structure", "map does not end");
	} else if (d.k == K_STR) {
		VH_CHECK(e.e.type == YAML_SCALAR_EVENT, "yaml-structure", "not a scalar");
		yaml_scalar_style_t s = e.e.data.scalar.style;
		if (k.scalar == "double quoted") { VH_CHECK(s == YAML_DOUBLE_QUOTED_SCALAR_STYLE, "scalar-style", printable(d.s), " is not double quoted"); count("scalar-double"); }
		if (!word(d.s)) return;
		if (k.scalar == "single quoted") { VH_CHECK(s == YAML_SINGLE_QUOTED_SCALAR_STYLE, "scalar-style", d.s, " is not single quoted"); count("scalar-single"); }
		if (k.scalar == "plain") { VH_CHECK(s == YAML_PLAIN_SCALAR_STYLE, "scalar-style", d.s, " is not plain"); count("scalar-plain"); }
		if (flow || key) return;
		if (k.scalar == "literal") { VH_CHECK(s == YAML_LITERAL_SCALAR_STYLE, "scalar-style", d.s, " is not literal"); count("scalar-literal"); }
		if (k.scalar == "folded") { VH_CHECK(s == YAML_FOLDED_SCALAR_STYLE, "scalar-style", d.s, " is not folded"); count("scalar-folded"); }
	}
}

static std::string write(const MV &doc, SerializeType t, Emitter (*make)(shared_ptr<EmitterOutput>, Variant), Rng &r, const Params &first, const std::vector<Params> &later, Sink &s, Params &reported, bool check_reads) {
	shared_ptr<EmitterOutput> out(new SinkOut(&s));
	Emitter e = r.coin() ? make(out, first.empty() && r.coin() ? Variant(Variant::NullType) : as_map(first)) : CreateEmitter(out, t, as_map(first));
	for (size_t i = 0; i < later.size(); ++i) {
		if (r.coin()) { e.SetParams(as_map(later[i])); count("set-all"); }
		else { for (size_t k = 0; k < later[i].size(); ++k) e.SetParam(later[i][k].key, to_variant(later[i][k].value)); count("set-one"); }
	}
	if (check_reads) {
		Variant all = e.GetParams();
		for (size_t i = 0; i < reported.size(); ++i) {
			const std::string &key = reported[i].key;
			MV one = from_variant(e.GetParam(key));
			VH_CHECK(diff(reported[i].value, one).empty(), cat("read-", key), format_name(t), " gives ", show(one), " instead of ", show(reported[i].value));
			VH_CHECK(all.IsMap() && all.Contains(key), cat("listed-", key), format_name(t), " does not list ", key);
			MV two = from_variant(all[key]);
			VH_CHECK(diff(reported[i].value, two).empty(), cat("listed-", key), format_name(t), " lists ", show(two), " instead of ", show(reported[i].value));
			count("read-back");
		}
		VH_CHECK(e.GetParam("no_such_parameter").IsNull(), "unknown-parameter", "an unknown parameter has a value");
	}
	e.BeginDocument();
	e << to_variant(doc);
	e.EndDocument();
	e.Close();
	return s.data;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	typedef Emitter (*Make)(shared_ptr<EmitterOutput>, Variant);
	Make make = t == SERIALIZE_JSON ? (Make)JSONEmitter : t == SERIALIZE_YAML ? (Make)YAMLEmitter : t == SERIALIZE_XMLPLIST ? (Make)XMLPLISTEmitter : (Make)BundleHdrEmitter;
	MV doc;
	bool maps_only = false, sentence = false;
	if (t == SERIALIZE_BUNDLEHDR) doc = gen_doc(r, t);
	else if (t == SERIALIZE_YAML && r.chance(1, 4)) {
		// maps in maps
		maps_only = true;
		doc = MV::Map();
		MV *m = &doc;
		for (int n = r.range(1, 6); n > 0; --n) {
			m->m["first"] = MV::Int(r.below(100));
			m->m["next"] = MV::Map();
			m->m["text"] = MV::Str("word");
			m = &m->m["next"];
		}
		m->m["last"] = MV::Bool(true);
	} else if (t == SERIALIZE_YAML && r.chance(1, 5)) {
		sentence = true;
		doc = MV::List();
		std::string s;
		for (int n = r.range(30, 80); n > 0; --n) { if (!s.empty()) s += ' '; for (int k = r.range(2, 9); k > 0; --k) s += (char)('a' + r.below(26)); }
		doc.l.push_back(MV::Str(s));
	} else {
		Gen g;
		g.max_depth = 4;
		g.blobs = false;
		g.big_strings = false;
		g.ctrl = false;
		g.xml_safe = t == SERIALIZE_XMLPLIST;
		if (t == SERIALIZE_XMLPLIST || r.coin()) g.unicode = false;
		if (t == SERIALIZE_JSON) g.nonfinite = r.chance(1, 6), g.blobs = r.chance(1, 6);
		doc = gen_container(r, g);
		if (r.coin()) { MV l = doc.k == K_LIST ? doc : MV::List(); static const char *w[] = { "word", "another", "abc" }; l.l.push_back(MV::Str(w[r.below(3)])); if (doc.k == K_LIST) doc = l; else doc.m["key"] = MV::Str(w[r.below(3)]); }
	}
	Params want = gen_set(r, t);
	if (sentence && !find(want, "width")) { Param x = { "width", gen_value(r, t, "width") }; want.push_back(x); }
	describe(cat(format_name(t), " ", show_params(want), " | ", show(doc, 3000)));
	std::string ctx = cat(" | ", show_params(want), " | ", show(doc, 1200));

	// all at the creation of the emitter
	std::string a, b, refused_a, refused_b;
	Sink sa(r.next()), sb(r.next());
	Params reported = want;
	try { a = write(doc, t, make, r, want, std::vector<Params>(), sa, reported, true); }
	catch (const Fail &f) { throw Fail(f.key, f.msg + ctx); }
	catch (const std::exception &e) { refused_a = e.what(); }
	// some then, others later, some of them twice
	Params first;
	std::vector<Params> later;
	for (int n = r.range(1, 3); n > 0; --n) later.push_back(Params());
	for (size_t i = 0; i < want.size(); ++i) {
		int when = r.below(later.size() + 1);
		if (when == 0) first.push_back(want[i]);
		else {
			if (r.chance(1, 3)) { Param x = { want[i].key, gen_value(r, t, want[i].key) }; first.push_back(x); }
			later[when - 1].push_back(want[i]);
		}
	}
	if (r.chance(1, 4)) { Param x = { "no_such_parameter", MV::Int(3) }; later[0].push_back(x); count("unknown-parameter"); }
	try { b = write(doc, t, make, r, first, later, sb, reported, true); }
	catch (const Fail &f) { throw Fail(f.key, cat(f.msg, " after setting", ctx)); }
	catch (const std::exception &e) { refused_b = e.what(); }
	VH_CHECK(refused_a.empty() == refused_b.empty(), "set-differs-refused", format_name(t), " at creation: ", refused_a, " later: ", refused_b, ctx);
	const MV *strict = find(want, "strict");
	bool unfit = t == SERIALIZE_JSON && has_blob_or_nonfinite(doc);
	if (!refused_a.empty()) {
		VH_CHECK(unfit && strict && strict->b, "refused", refused_a, ctx);
		count("strict-refused");
		nontrivial(hash(ctx));
		return;
	}
	VH_CHECK(!(unfit && strict && strict->b), "strict-accepted", printable(a), ctx);
	VH_CHECK(a == b, cat("set-differs-", format_name(t)), "set later: ", printable(b, 800), " given at creation: ", printable(a, 800), ctx);

	// what the parameters say
	const MV *p;
	if ((p = find(want, "precision")) && !unfit) {
		MV w = doc;
		if (round_floats(w, (int)p->i)) {
			MV got;
			try { got = from_variant(Deserialize(a, t)); } catch (const Fail &) { throw; } catch (const std::exception &e) { throw Fail("precision-unreadable", cat(e.what(), ctx)); }
			std::string d;
			if (t == SERIALIZE_BUNDLEHDR) { got.m.erase("bundle.version"); for (auto &x : w.m) { if (x.second.k == K_BOOL) x.second = MV::Int(x.second.b); for (auto &y : x.second.l) if (y.k == K_BOOL) y = MV::Int(y.b); } for (auto &x : got.m) { if (x.second.k == K_BOOL) x.second = MV::Int(x.second.b); for (auto &y : x.second.l) if (y.k == K_BOOL) y = MV::Int(y.b); } }
			d = diff(w, got);
			VH_CHECK(d.empty(), cat("precision-", format_name(t)), d, " | ", printable(a, 800), ctx);
			count(cat("precision-", format_name(t)).c_str());
		}
	}
	if (t == SERIALIZE_JSON && !unfit) {
		const MV *y = find(want, "pretty"), *n = find(want, "indent");
		try { check_json(a, y && y->b, n ? (size_t)n->i : 4); } catch (const Fail &f) { throw Fail(f.key, f.msg + ctx); }
	} else if (t == SERIALIZE_XMLPLIST) {
		const MV *y = find(want, "pretty"), *n = find(want, "indent");
		bool nl = false;
		std::function<void(const MV &)> look = [&](const MV &v) { if (v.s.find_first_of("\n<>&") != std::string::npos) nl = true; for (auto &x : v.l) look(x); for (auto &x : v.m) { if (x.first.find_first_of("\n<>&") != std::string::npos) nl = true; look(x.second); } };
		look(doc);
		if (!nl) { try { check_xml(a, y && y->b, n ? (size_t)n->i : 4); } catch (const Fail &f) { throw Fail(f.key, f.msg + ctx); } }
	} else if (t == SERIALIZE_YAML) {
		const MV *begin = find(want, "implicit_document_begin"), *end = find(want, "implicit_document_end"), *w = find(want, "width"), *n = find(want, "indent"), *s = find(want, "scalar_style"), *m = find(want, "map_style"), *l = find(want, "list_style");
		bool marked = a.compare(0, 3, "---") == 0;
		VH_CHECK(marked == !(begin && begin->b), "document-begin", printable(a, 800), ctx);
		bool ended = a.size() >= 4 && a.compare(a.size() - 4, 4, "...\n") == 0;
		std::string sc = s ? s->s : "any";
		if (!(end && end->b)) VH_CHECK(ended, "document-end", printable(a, 800), ctx);
		else if (sc != "literal" && sc != "folded") VH_CHECK(!ended, "document-end", printable(a, 800), ctx);
		count(marked ? "begin-marked" : "begin-implicit");
		count(ended ? "end-marked" : "end-implicit");
		Look k = { sc, m ? m->s : "any", l ? l->s : "any", n ? (int)n->i : 0, maps_only };
		try {
			Events e(a);
			e.next(); e.next(); e.next();
			check_node(e, doc, k, false, false, 0);
		} catch (const Fail &f) { throw Fail(f.key, cat(f.msg, " in ", printable(a, 1200), ctx)); }
		if (sentence && sc != "literal") {
			size_t line = 0, longest = 0, lines = 0;
			for (size_t i = 0; i <= a.size(); ++i) { if (i == a.size() || a[i] == '\n') { longest = std::max(longest, line); line = 0; ++lines; } else ++line; }
			// a break is made at the first blank past the width
			VH_CHECK(longest <= (size_t)w->i + 14, "width-exceeded", "a line of ", longest, " with a width of ", w->i, " in ", printable(a, 800), ctx);
			VH_CHECK(lines <= 10 + doc.l[0].s.size() / ((size_t)w->i - 18), "width-unused", lines, " lines with a width of ", w->i, " in ", printable(a, 800), ctx);
			count("width");
		}
	}
	count(format_name(t));
	nontrivial(mix(hash(a), hash(show_params(want))));
	sample(cat(format_name(t), " ", show_params(want), " | ", printable(a, 200)));
}

int main(int argc, char **argv) {
	return vh::run(argc, argv, one);
}
