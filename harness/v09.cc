// V09: XML property-list text preserves every document.
#include "model.h"
#include <expat.h>
#include <math.h>
#include <errno.h>
using namespace vh;
using namespace libvariant;

static std::string unbase64(const std::string &s) {
	static const std::string tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	unsigned acc = 0, n = 0;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '=' || s[i] == '\n' || s[i] == ' ' || s[i] == '\t' || s[i] == '\r') continue;
		size_t p = tab.find(s[i]);
		if (p == std::string::npos) throw Fail("xml-blob-base64", "not base64: " + printable(s));
		acc = (acc << 6) | p;
		n += 6;
		if (n >= 8) { n -= 8; o += (char)((acc >> n) & 0xff); }
	}
	return o;
}

// An independent reader: an XML tree from another parser, read by the property-list element names.
struct Node { std::string name, text; std::vector<Node> kids; };
struct Tree {
	std::vector<Node> stack;
	static void start(void *u, const char *n, const char **) { Node x; x.name = n; ((Tree *)u)->stack.push_back(x); }
	static void end(void *u, const char *) { Tree *t = (Tree *)u; Node x = t->stack.back(); t->stack.pop_back(); t->stack.back().kids.push_back(x); }
	static void text(void *u, const char *s, int n) { Tree *t = (Tree *)u; t->stack.back().text.append(s, n); }
};
static MV from_node(const Node &n) {
	if (n.name != "dict" && n.name != "array" && n.name != "plist" && !n.kids.empty()) throw Fail("xml-output-structure", "elements inside " + n.name);
	if (n.name == "null") return MV::Null();
	if (n.name == "true") return MV::Bool(true);
	if (n.name == "false") return MV::Bool(false);
	if (n.name == "string") return MV::Str(n.text);
	if (n.name == "data") return MV::Blob(unbase64(n.text));
	if (n.name == "integer") {
		errno = 0;
		char *e = 0;
		MV v = n.text[0] == '-' ? MV::Int(strtoll(n.text.c_str(), &e, 10)) : MV::Uint(strtoull(n.text.c_str(), &e, 10));
		VH_CHECK(!errno && !*e && e != n.text.c_str(), "xml-output-number", printable(n.text));
		return v;
	}
	if (n.name == "real") {
		char *e = 0;
		MV v = MV::Float(strtod(n.text.c_str(), &e));
		VH_CHECK(!*e && e != n.text.c_str(), "xml-output-number", printable(n.text));
		return v;
	}
	if (n.name == "array") { MV v = MV::List(); for (auto &k : n.kids) v.l.push_back(from_node(k)); return v; }
	if (n.name == "dict") {
		MV v = MV::Map();
		VH_CHECK(n.kids.size() % 2 == 0, "xml-output-structure", "odd number of elements in dict");
		for (size_t i = 0; i < n.kids.size(); i += 2) {
			VH_CHECK(n.kids[i].name == "key" && n.kids[i].kids.empty(), "xml-output-structure", "expected a key");
			VH_CHECK(!v.m.count(n.kids[i].text), "xml-output-structure", "duplicate key");
			v.m[n.kids[i].text] = from_node(n.kids[i + 1]);
		}
		return v;
	}
	throw Fail("xml-output-structure", "element " + n.name);
}
static MV independent(const std::string &text) {
	Tree t;
	t.stack.push_back(Node());
	XML_Parser p = XML_ParserCreate(0);
	XML_SetUserData(p, &t);
	XML_SetElementHandler(p, Tree::start, Tree::end);
	XML_SetCharacterDataHandler(p, Tree::text);
	int ok = XML_Parse(p, text.data(), (int)text.size(), 1);
	std::string err = ok ? "" : XML_ErrorString(XML_GetErrorCode(p));
	XML_ParserFree(p);
	VH_CHECK(ok, "xml-output-malformed", err);
	VH_CHECK(t.stack.size() == 1 && t.stack[0].kids.size() == 1, "xml-output-structure", "not one root element");
	const Node &root = t.stack[0].kids[0];
	if (root.name != "plist") return from_node(root);
	VH_CHECK(root.kids.size() == 1, "xml-output-structure", "not one value in the plist element");
	return from_node(root.kids[0]);
}

static void round_trip(Ctx &c) {
	Rng &r = c.rng;
	Gen g;
	g.xml_safe = true;
	g.max_depth = r.chance(1, 20) ? 10 : 4;
	if (r.chance(1, 10)) g.max_items = 12;
	MV doc = r.chance(1, 6) ? gen_scalar(r, g) : gen_container(r, g);
	if (r.chance(1, 60)) {
		int n = r.range(20, 100);
		for (int i = 0; i < n; ++i) { MV o = r.coin() ? MV::List() : MV::Map(); if (o.k == K_LIST) o.l.push_back(doc); else o.m[gen_key(r, g)] = doc; doc = o; }
		count("deep-nesting");
	}
	if (r.chance(1, 1200)) { doc = gen_large(r, g, 200); count("large"); }
	Variant params = Variant::NullType;
	if (r.chance(4, 5)) {
		params = Variant::MapType;
		if (r.chance(2, 3)) params["pretty"] = r.coin();
		if (r.coin()) params["indent"] = r.below(9);
		if (r.chance(1, 3)) params["precision"] = r.range(17, 25);
	}
	std::string ptext = params.IsMap() ? SerializeJSON(params) : "none";
	describe(show(doc, 9000) + " params " + ptext);
	Variant v = to_variant(doc, r);
	std::string text;
	try { text = Serialize(v, SERIALIZE_XMLPLIST, params); }
	catch (const std::exception &e) { throw Fail("xml-refused", cat(e.what(), " for ", show(doc, 1500), " params ", ptext)); }
	count("documents");
	std::string d = diff(doc, from_variant(v));
	VH_CHECK(d.empty(), "xml-writing-changed-document", d, " | ", show(doc));
	MV back;
	try { back = from_variant(Deserialize(text, SERIALIZE_XMLPLIST)); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail("xml-roundtrip-rejected", cat("own output rejected: ", e.what(), " | ", show(doc, 1500), " | params ", ptext, " | text ", printable(text, 1500))); }
	d = diff(doc, back);
	VH_CHECK(d.empty(), "xml-roundtrip-differs", d, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500));
	try { d = diff(doc, independent(text)); }
	catch (const Fail &f) { throw Fail(f.key, cat(f.msg, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500))); }
	VH_CHECK(d.empty(), "xml-output-differs", d, " | params ", ptext, " | ", show(doc, 1500), " | text ", printable(text, 1500));
	VH_CHECK(Serialize(v, SERIALIZE_XMLPLIST, params) == text, "xml-not-repeatable", show(doc));
	if (r.chance(1, 8)) {
		int prec = r.range(1, 16);
		double f = gen_double(r, false);
		Variant q = Variant::MapType;
		q["precision"] = prec;
		Variant l;
		l.Append(f);
		Variant b = Deserialize(Serialize(l, SERIALIZE_XMLPLIST, q), SERIALIZE_XMLPLIST);
		VH_CHECK(b.IsList() && b.Size() == 1 && b[0].IsFloat(), "xml-precision-kind", bits(f), " precision ", prec, " gave ", show(from_variant(b)));
		double back = b[0].AsDouble();
		VH_CHECK(std::isinf(back) ? fabs(f) > 1e307 : fabs(back - f) <= fabs(f) * pow(10.0, 1 - prec) + 5e-324, "xml-precision-value", bits(f), " precision ", prec, " gave ", bits(back));
		count("precision");
	}
	size_t n = nodes(doc);
	count("nodes", n);
	if (n > 2) nontrivial(shape(doc));
	if (n > 4 && n < 20) sample("params " + ptext + " doc " + show(doc, 400) + " text " + printable(text, 500));
}

// Property lists written with the liberties XML gives: comments, CDATA, references, processing instructions, attributes.
struct Writer {
	Rng &r;
	Gen g;
	explicit Writer(Rng &r_) : r(r_) { g.xml_safe = true; g.big_strings = false; g.nonfinite = false; }
	std::string junk() {
		switch (r.below(6)) {
		case 0: count("xml-comment"); return "<!-- a <b> comment -->";
		case 1: return "<?pi data?>";
		case 2: return "\n  ";
		default: return "";
		}
	}
	std::string text(const std::string &s) {
		std::string o;
		for (size_t i = 0; i < s.size(); ) {
			size_t n = 1;
			while (i + n < s.size() && ((unsigned char)s[i + n] & 0xc0) == 0x80) ++n;
			std::string ch = s.substr(i, n);
			i += n;
			if (r.chance(1, 25)) { o += "<!--c-->"; count("comment-in-text"); }
			if (ch == "\r") o += "&#13;";
			else if (ch == "<" || ch == "&" || ch == ">") {
				if (r.chance(1, 4)) { o += "<![CDATA[" + ch + "]]>"; count("cdata"); }
				else if (r.chance(1, 3)) o += cat("&#", (int)(unsigned char)ch[0], ";");
				else o += ch == "<" ? "&lt;" : ch == "&" ? "&amp;" : "&gt;";
			} else if (n == 1 && r.chance(1, 20)) { o += cat("&#", (int)(unsigned char)ch[0], ";"); count("character-reference"); }
			else if (n == 1 && r.chance(1, 25)) { o += "<![CDATA[" + ch + "]]>"; count("cdata"); }
			else o += ch;
		}
		return o;
	}
	std::string write(const MV &v) {
		std::string o = junk();
		switch (v.k) {
		case K_NULL: o += r.coin() ? "<null/>" : "<null></null>"; break;
		case K_BOOL: o += cat("<", v.b ? "true" : "false", r.coin() ? "/>" : cat("></", v.b ? "true" : "false", ">")); break;
		case K_INT: o += cat("<integer>", v.i, "</integer>"); break;
		case K_UINT: o += cat("<integer>", v.u, "</integer>"); break;
		case K_FLOAT: if (fabs(v.f) >= 1e20 && fabs(v.f) < 1e40) { char b[64]; snprintf(b, sizeof(b), "%.0f", v.f); o += cat("<integer>", b, "</integer>"); count("beyond-64-bits"); break; } { char b[64]; snprintf(b, sizeof(b), "%.17g", v.f); o += cat("<real>", b, "</real>"); break; }
		case K_STR: o += "<string>" + text(v.s) + "</string>"; break;
		case K_LIST: o += "<array>"; for (auto &x : v.l) o += write(x); o += junk() + "</array>"; break;
		case K_MAP: o += "<dict>"; for (auto &x : v.m) o += junk() + "<key>" + text(x.first) + "</key>" + write(x.second); o += junk() + "</dict>"; break;
		default: o += "<null/>"; break;
		}
		return o;
	}
};
static void written(Ctx &c) {
	Rng &r = c.rng;
	Writer w(r);
	w.g.blobs = false;
	MV doc = gen_container(r, w.g);
	std::string t = r.coin() ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "";
	t += "<plist version=\"1.0\">" + w.write(doc) + w.junk() + "</plist>\n";
	describe(printable(t, 6000));
	MV got;
	try { got = from_variant(Deserialize(t, SERIALIZE_XMLPLIST)); }
	catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail("xml-text-refused", cat(e.what(), " for ", printable(t, 2000))); }
	std::string d = diff(doc, got);
	VH_CHECK(d.empty(), "xml-text-misread", d, " | text ", printable(t, 2000));
	count("written-text");
	nontrivial(hash(t));
}

// what is written is not read back
static void probe_doc(const MV &doc) {
	std::string text = Serialize(to_variant(doc), SERIALIZE_XMLPLIST);
	MV got;
	try { got = from_variant(Deserialize(text, SERIALIZE_XMLPLIST)); }
	catch (const std::exception &e) { throw Fail("refused", e.what()); }
	VH_CHECK(diff(doc, got).empty(), "differs", "read back differently");
}
static void probe_deep(Ctx &) {
	MV v = MV::List();
	for (int i = 0; i < 300; ++i) { MV o = MV::List(); o.l.push_back(v); v = o; }
	probe_doc(v);
}
static void probe_long(Ctx &) {
	MV v = MV::List();
	v.l.push_back(MV::Str(std::string(11000000, 'x')));
	probe_doc(v);
}

static void one(Ctx &c) {
	if (c.rng.chance(1, 5)) written(c);
	else round_trip(c);
}

int main(int argc, char **argv) {
	add_probe("nesting-300", probe_deep);
	add_probe("text-of-11-million", probe_long);
	return vh::run(argc, argv, one);
}
