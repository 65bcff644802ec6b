// V11: hostile input ends in a value or an exception, nothing else.
#include "io.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Payload.h>
#include <Variant/Path.h>
#include <Variant/Extensions.h>
#include <libxml/xmlerror.h>
using namespace vh;
using namespace libvariant;

static const char *soup_json[] = { "{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"\\u0000BLOB", "\"\\u0000BLOBQUJD\"", "true", "false", "null", "-", "0", "1e5", "1.5", "1e", ".", "e999", "\\", "\\u", "\\ud800", "\\udc00", "\\u12", "/*", "*/", "//", "\n", " ", "\t", "\x01", "\xff", "\xef\xbb\xbf", "NaN", "99999999999999999999999", "-9223372036854775808", "18446744073709551615" };
static const char *soup_yaml[] = { "{", "}", "[", "]", ",", ": ", "? ", "- ", "-", "\n", "\n  ", "\n    ", "---", "\n---\n", "\n...\n", "&a ", "*a ", "&b ", "*b", "<<: ", "!!str ", "!!binary ", "!!int ", "!!float ", "!!bool ", "!!null ", "!!map ", "!!seq ", "!x ", "!<tag:yaml.org,2002:binary> ", "%YAML 1.1\n", "%TAG ! tag:x,2000:\n", "| \n", ">-\n", "|9\n", "'", "\"", "\"\\x41\"", "\\", "\\u", "# c", "\t", "~", "null", "0x1F", "0o17", "017", "1e5", "-.inf", ".nan", "1_000", "QUJD", "=", "\xff", "\xef\xbb\xbf", "\xff\xfe", "\x85", "99999999999999999999999" };
static const char *soup_xml[] = { "<plist>", "</plist>", "<plist version=\"1.0\">", "<dict>", "</dict>", "<dict/>", "<array>", "</array>", "<array/>", "<key>", "</key>", "<key/>", "<string>", "</string>", "<string/>", "<integer>", "</integer>", "<integer/>", "<real>", "</real>", "<true/>", "<false/>", "<true>", "</true>", "<data>", "</data>", "<data/>", "<null/>", "<null>", "</null>", "<x a='", "'>", "</x>", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#65;", "&#0;", "&#xD800;", "&x;", "&", "<", ">", "<!DOCTYPE plist [", "<!ENTITY x \"y\">", "<!ENTITY x \"&x;\">", "<!ENTITY x \"<array/>\">", "]>", "12", "-1.5e3", "QUJD", "Q", "=", "\xff", " ", "\n" };
static const char *soup_bundle[] = { "a: ", "b:", "c ", ":", "|", "||", "\n", "\r\n", "# c", "#", "1", "-1.5", "1e999", "text", "bundle.version: 0.0\n", "payload_length: 5\n", "\0", " ", "\t", "true", "\xff", "99999999999999999999999", "\\" };

template<size_t N> static std::string soup(Rng &r, const char *const (&w)[N]) {
	std::string s;
	for (int n = r.chance(1, 20) ? r.range(100, 2000) : r.range(1, 40); n > 0; --n) {
		const char *t = w[r.below(N)];
		if (!*t) s.push_back('\0');
		else s += t;
	}
	return s;
}
static std::string token_soup(Rng &r, SerializeType t) {
	switch (t) {
	case SERIALIZE_JSON: return (r.coin() ? "[" : "") + soup(r, soup_json);
	case SERIALIZE_YAML: return soup(r, soup_yaml);
	case SERIALIZE_XMLPLIST: return (r.coin() ? "<plist>" : "") + soup(r, soup_xml);
	default: return soup(r, soup_bundle);
	}
}
static std::string rep(const std::string &s, int n) { std::string o; while (n-- > 0) o += s; return o; }
static std::string nested(Rng &r) {
	int n = r.chance(1, 400) ? r.range(50000, 500000) : r.chance(1, 20) ? r.range(2000, 20000) : r.chance(1, 3) ? r.range(500, 2000) : r.range(50, 500);
	int close = r.chance(1, 3) ? n : r.chance(1, 2) ? 0 : (int)r.below(n + 2);
	static const char *open[] = { "[", "{\"a\":", "<array>", "<dict><key>a</key>", "[[],", "{\"a\":{},\"b\":", "<array><array/>", "<plist>", "<string>" };
	static const char *shut[] = { "]", "}", "</array>", "</dict>", "]", "}", "</array>", "</plist>", "</string>" };
	if (r.chance(1, 8)) { std::string s, in; for (int i = 0; i < std::min(n, 400); ++i) { s += in + "a:\n"; in += " "; } return s; }
	if (r.chance(1, 8)) return rep("- ", std::min(n, 900)) + "x";
	if (r.chance(1, 8)) return rep("? ", std::min(n, 400));
	int k = r.below(9);
	return rep(open[k], n) + (r.coin() ? "1" : "") + rep(shut[k], close);
}
static std::string long_thing(Rng &r) {
	int n = r.chance(1, 4) ? r.range(5000, 80000) : r.range(500, 5000);
	switch (r.below(12)) {
	case 0: return "[" + std::string(n, '1') + (r.coin() ? "]" : "");
	case 1: return "[0." + std::string(n, '3') + "e" + std::string(r.below(30), '9') + "]";
	case 2: return "[\"" + std::string(n, 'x') + (r.coin() ? "\"]" : "");
	case 3: return "{\"" + std::string(n, 'k') + "\":1}";
	case 4: return "[-" + std::string(n, '0') + "]";
	case 5: return "[\"" + rep("\\u12a4", n / 4) + "\"]";
	case 6: return "a" + std::string(n, 'k') + ": " + std::string(n, 'v') + "\n";
	case 7: return "<integer>" + std::string(n, '7') + "</integer>";
	case 8: return "<plist><data>" + std::string(n, 'Q') + (r.coin() ? "" : "=") + "</data></plist>";
	case 9: return "list: " + rep("x|", n);
	case 10: return std::string(n, r.coin() ? ' ' : '\n') + (r.coin() ? "[1]" : "");
	default: return "- " + std::string(n, r.coin() ? '9' : '.');
	}
}
static std::string payload_text(Rng &r) {
	static const char *lens[] = { "0", "1", "5", "-1", "4294967295", "4294967296", "18446744073709551615", "2147483648", "1e9", "x", "", "null", "99999999999999999999999", "0.5" };
	std::string l = r.coin() ? cat(r.below(60)) : lens[r.below(14)];
	std::string h;
	switch (r.below(4)) {
	case 0: h = "{\"payload_length\":" + l + "}"; break;
	case 1: h = "payload_length: " + l + "\n"; break;
	case 2: h = "<plist><dict><key>payload_length</key><integer>" + l + "</integer></dict></plist>"; break;
	default: h = "bundle.version: 0.0\npayload_length: " + l + "\n";
	}
	h += std::string(r.below(40), r.coin() ? '\n' : ' ');
	if (!r.chance(1, 4)) h.push_back('\0');
	h += gen_bytes(r, 60);
	return r.chance(1, 3) ? corrupt(r, h) : h;
}
static std::string entity_text(Rng &r) {
	std::string s = "<?xml version=\"1.0\"?><!DOCTYPE plist [";
	int n = r.range(1, 8);
	for (int i = 0; i < n; ++i) {
		s += cat("<!ENTITY e", i, " \"");
		for (int k = r.below(12); k > 0; --k) s += r.chance(1, 4) ? cat("t", k) : cat("&e", r.chance(1, 10) ? r.below(n + 1) : i ? r.below(i) : 0, ";");
		if (r.chance(1, 10)) s += "<integer>1</integer>";
		s += "\">";
	}
	s += "]><plist><array>";
	for (int k = r.range(1, 4); k > 0; --k) s += cat("<string>a&e", r.below(n), ";b</string>");
	s += "</array></plist>";
	return r.chance(1, 4) ? corrupt(r, s) : s;
}
static std::string alias_text(Rng &r) {
	int n = r.range(1, 12);
	std::string s;
	for (int i = 0; i < n; ++i) {
		s += cat("k", i, ": &a", i, r.coin() ? " [" : " {");
		bool list = s[s.size() - 1] == '[';
		for (int k = r.below(10); k > 0; --k) s += list ? cat(i && r.chance(3, 4) ? cat("*a", r.below(i + (r.chance(1, 20) ? 2 : 0))) : "x", " , ") : cat("m", k, ": ", i && r.chance(3, 4) ? cat("*a", r.below(i)) : "x", " , ");
		s += list ? "]\n" : "}\n";
	}
	return r.chance(1, 4) ? corrupt(r, s) : s;
}

// Touches everything that was read, up to a limit: shared parts may repeat without bound.
static void touch(const Variant &v, unsigned &left, uint64_t &sum, int level = 0) {
	if (!left || level > 2100) return;
	--left;
	if (v.IsMap()) {
		for (Variant::ConstMapIterator i(v.MapBegin()), e(v.MapEnd()); i != e && left; ++i) {
			for (size_t k = 0; k < i->first.size(); ++k) sum += i->first[k];
			touch(i->second, left, sum, level + 1);
		}
	} else if (v.IsList()) {
		for (Variant::ConstListIterator i(v.ListBegin()), e(v.ListEnd()); i != e && left; ++i) touch(*i, left, sum, level + 1);
	} else if (v.IsBlob()) {
		std::string b = blob_bytes(v.AsBlob());
		for (size_t k = 0; k < b.size(); ++k) sum += b[k];
	} else if (v.IsString()) {
		std::string b = v.AsString();
		for (size_t k = 0; k < b.size(); ++k) sum += b[k];
	} else if (v.IsNumber()) {
		sum += (uint64_t)(v.AsNumber<double>() > 0);
	}
}
static bool finish(const Variant &v) {
	unsigned left = 20000;
	uint64_t sum = 0;
	touch(v, left, sum);
	volatile uint64_t keep = sum;
	(void)keep;
	return true;
}

// The input as given to the parser, freed when done.
struct Given {
	Given(Rng &r, const std::string &t) : feed(t, r.next()), block(0) {
		how = r.below(4);
		switch (how) {
		case 0:
			block = (char *)malloc(t.size());
			memcpy(block, t.data(), t.size());
			in = CreateParserInput((const void *)block, t.size());
			break;
		case 1: { static const unsigned sizes[] = { 1, 7, 64, 4096 }; in.reset(new FeedStream(&feed, sizes[r.below(4)])); break; }
		case 2: buf.reset(new FeedBuf(&feed)); in = CreateParserInputFile((std::streambuf *)buf.get()); break;
		default: in.reset(new FeedInput(&feed));
		}
	}
	~Given() { in.reset(); free(block); }
	Feed feed;
	char *block;
	int how;
	std::unique_ptr<FeedBuf> buf;
	shared_ptr<ParserInput> in;
};

static void outcome(const char *what, bool value) {
	count(cat(what, value ? "-value" : "-refused").c_str());
}

static void parse_all_ways(Rng &r, const std::string &text, SerializeType native) {
	for (int i = 0; i < 4; ++i) {
		SerializeType t = FORMATS[i];
		// the other formats mostly refuse early: try them less often
		if (t != native && !r.chance(1, 3)) continue;
		bool ok = false;
		Given g(r, text);
		try {
			Parser p = CreateParser(g.in, t);
			ok = finish(ParseVariant(p));
		} catch (const Fail &) { throw; }
		catch (const std::exception &) {}
		outcome(format_name(t), ok);
	}
	if (r.chance(1, 3)) {
		bool ok = false;
		Given g(r, text);
		try { Parser p = CreateParserGuess(g.in); ok = finish(ParseVariant(p)); } catch (const std::exception &) {}
		outcome("guess", ok);
	}
	if (r.chance(1, 3)) {
		bool ok = false;
		Given g(r, text);
		try {
			Parser p = CreateParser(g.in, native);
			LoadAllIterator it(p), end;
			for (int n = 0; it != end && n < 200; ++n, ++it) ok = finish(*it);
		} catch (const std::exception &) {}
		outcome("all", ok);
	}
	if (r.chance(1, 3)) {
		bool ok = false;
		Given g(r, text);
		try {
			Variant params = Variant::MapType;
			if (r.coin()) params["ignore_payload"] = r.coin();
			if (r.chance(1, 4)) params["payload_length"] = r.below(100);
			if (r.chance(1, 4)) params["length_path"] = r.coin() ? "payload_length" : "a/b[3]/c";
			if (r.chance(1, 4)) params["data_path"] = r.coin() ? "payload" : "a/b[3]/c";
			for (int n = 0; n < 5; ++n) ok = finish(DeserializeWithPayload(g.in, native, params, r.coin()));
		} catch (const std::exception &) {}
		outcome("payload", ok);
	}
}

// Documents that look like schemas, with every keyword given every kind of value.
static const char *keywords[] = { "type", "enum", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "divisibleBy", "minLength", "maxLength", "pattern", "format", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "properties", "patternProperties", "additionalProperties", "required", "minProperties", "maxProperties", "dependencies", "allOf", "anyOf", "oneOf", "not", "definitions", "$ref", "id", "default", "extends", "disallow", "title", "$schema" };
static Variant odd_schema(Rng &r, int level);
static Variant odd_value(Rng &r, int level) {
	switch (r.below(16)) {
	case 0: return Variant::NullType;
	case 1: return r.coin();
	case 2: return (int)r.below(5);
	case 3: return -(int)r.below(5);
	case 4: return r.coin() ? 0.0 : gen_double(r, true);
	case 5: return r.coin() ? Variant(gen_int(r)) : Variant(gen_uint(r));
	case 6: { static const char *t[] = { "string", "integer", "number", "object", "array", "boolean", "null", "any", "" }; return t[r.below(9)]; }
	case 7: { static const char *t[] = { "^a", "[", "(", "a{1000}", "*", "(a|b)*c", "\\", "[[:x:]]", "a**", "(((((((", "x{2,1}" }; return t[r.below(11)]; }
	case 8: { static const char *t[] = { "#", "#/", "#/definitions/a", "#/properties/a/items/0", "#a", "x", "x#y", "http://h/p#/q", "#/~", "#/%zz", "#/%41", "//", ":", "a:b:c", "../..", "?q" }; return t[r.below(16)]; }
	case 9: { Variant l = Variant::ListType; for (int n = r.below(4); n > 0; --n) l.Append(level > 3 ? Variant(1) : odd_value(r, level + 1)); return l; }
	case 10: { Variant m = Variant::MapType; for (int n = r.below(4); n > 0; --n) m[std::string(1, (char)('a' + r.below(3)))] = level > 3 ? Variant(1) : odd_value(r, level + 1); return m; }
	case 11: { Variant m = Variant::MapType; for (int n = r.below(4); n > 0; --n) m[std::string(1, (char)('a' + r.below(3)))] = odd_schema(r, level + 1); return m; }
	case 12: { Variant l = Variant::ListType; for (int n = r.below(4); n > 0; --n) l.Append(odd_schema(r, level + 1)); return l; }
	case 13: { Variant l = Variant::ListType; for (int n = r.below(4); n > 0; --n) l.Append(std::string(1, (char)('a' + r.below(3)))); return l; }
	default: return odd_schema(r, level + 1);
	}
}
static Variant odd_schema(Rng &r, int level) {
	if (level > 3) return Variant::MapType;
	Variant m = Variant::MapType;
	for (int n = r.range(0, 4); n > 0; --n) m[keywords[r.below(sizeof(keywords) / sizeof(*keywords))]] = odd_value(r, level);
	return m;
}
static Variant data(Rng &r, int level = 0) {
	switch (r.below(8)) {
	case 0: return Variant::NullType;
	case 1: return r.coin();
	case 2: return (int)r.below(10);
	case 3: return r.coin() ? Variant(gen_double(r, true)) : r.coin() ? Variant(gen_int(r)) : Variant(gen_uint(r));
	case 4: return gen_bytes(r, 6);
	case 5: case 6: { Variant m = Variant::MapType; if (level < 3) for (int n = r.below(4); n > 0; --n) m[std::string(1, (char)('a' + r.below(3)))] = data(r, level + 1); return m; }
	default: { Variant l = Variant::ListType; if (level < 3) for (int n = r.below(4); n > 0; --n) l.Append(data(r, level + 1)); return l; }
	}
}
static void schema_case(Rng &r) {
	MV sm = from_variant(r.chance(1, 20) ? odd_value(r, 0) : odd_schema(r, 0));
	MV dm = from_variant(data(r));
	describe(cat("schema ", show(sm, 3000), " data ", show(dm, 1000)));
	bool ok = false;
	Variant schema = to_variant(sm), d = to_variant(dm);
	int how = r.below(3);
	try {
		if (how == 0) {
			SchemaResult res = SchemaValidate(schema, d);
			ok = !res.Error();
		} else if (how == 1) {
			SchemaLoader ldr;
			ldr.AddSchema("http://h/p", schema);
			SchemaResult res = SchemaValidate("http://h/p", d, &ldr);
			ok = !res.Error();
		} else {
			AddSchemaDefaults(schema, d);
			ok = finish(d);
		}
	} catch (const std::exception &) {}
	outcome(how == 2 ? "defaults" : "schema", ok);
	nontrivial(hash(show(sm, 3000) + show(dm, 3000)));
}
static void pointer_case(Rng &r) {
	static const char *parts[] = { "/", "/a", "/b", "/0", "/1", "/-", "/~0", "/~1", "/~", "/~2", "a", "/-1", "/00", "/99999999999", "/4294967296", "/1x", "/18446744073709551615", "/+1", "/ 1", "/3" };
	std::string p, q;
	for (int n = r.below(5); n > 0; --n) p += parts[r.below(20)];
	for (int n = r.below(5); n > 0; --n) q += parts[r.below(20)];
	MV dm = from_variant(data(r));
	Variant d = to_variant(dm), patch = Variant::ListType;
	static const char *ops[] = { "add", "remove", "replace", "move", "copy", "test", "x", "" };
	for (int n = r.range(1, 4); n > 0; --n) {
		Variant o = Variant::MapType;
		if (!r.chance(1, 12)) o["op"] = r.chance(1, 15) ? data(r) : Variant(ops[r.below(8)]);
		if (!r.chance(1, 12)) o["path"] = r.chance(1, 15) ? data(r) : Variant(r.coin() ? p : q);
		if (r.coin()) o["from"] = r.chance(1, 15) ? data(r) : Variant(r.coin() ? p : q);
		if (r.coin()) o["value"] = data(r);
		patch.Append(r.chance(1, 20) ? data(r) : o);
	}
	if (r.chance(1, 20)) patch = data(r);
	describe(cat("document ", show(dm, 1000), " pointers ", p, " and ", q, " patch ", show(from_variant(patch), 2000)));
	bool ok = false;
	int how = r.below(8);
	try {
		switch (how) {
		case 0: { VariantRef x = JSONPointerLookup(p, d); ok = finish(Variant(x)); break; }
		case 1: JSONPointerAdd(p, d, data(r)); ok = true; break;
		case 2: JSONPointerRemove(p, d); ok = true; break;
		case 3: JSONPointerReplace(p, d, data(r)); ok = true; break;
		case 4: JSONPointerMove(p, q, d); ok = true; break;
		case 5: JSONPointerCopy(p, q, d); ok = true; break;
		default: ok = JSONPatch(d, patch).first;
		}
		finish(d);
	} catch (const std::exception &) {}
	outcome(how < 6 ? "pointer" : "patch", ok);
	nontrivial(hash(cat(how, p, q, show(dm, 2000), show(from_variant(patch), 2000))));
}
static void path_case(Rng &r) {
	static const char *parts[] = { "/", "a", "b", "[0]", "[1]", "[", "]", "\\", "[-1]", "[x]", "[99999999999]", "[00]", "..", "\\/", "\\[", "//", "[ 1]", "\xff", "[3]" };
	std::string p;
	for (int n = r.below(8); n > 0; --n) p += parts[r.below(19)];
	MV dm = from_variant(data(r));
	Variant d = to_variant(dm);
	describe(cat("document ", show(dm, 1000), " path ", p));
	bool ok = false;
	try {
		switch (r.below(5)) {
		case 0: ok = d.HasPath(p); break;
		case 1: ok = finish(d.GetPath(p)); break;
		case 2: d.SetPath(p, data(r)); ok = true; break;
		case 3: d.ErasePath(p, r.coin()); ok = true; break;
		default: ok = PathString(ParsePath(p)).size() < 1000;
		}
		finish(d);
	} catch (const std::exception &) {}
	outcome("path", ok);
	nontrivial(hash(p + show(dm, 2000)));
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	if (r.chance(1, 6)) { schema_case(r); return; }
	if (r.chance(1, 10)) { pointer_case(r); return; }
	if (r.chance(1, 20)) { path_case(r); return; }
	SerializeType t = FORMATS[r.below(4)];
	std::string text;
	const char *kind;
	switch (r.below(11)) {
	case 0: case 1: case 2: kind = "edited"; text = corrupt(r, gen_text(r, t)); break;
	case 3: kind = "heavily-edited"; text = gen_text(r, t); for (int n = r.range(3, 17); n > 0; --n) text = corrupt(r, text); break;
	case 4: {
		kind = "spliced";
		std::string a = gen_text(r, t), b = gen_text(r, FORMATS[r.below(4)]);
		text = a.substr(0, r.below(a.size() + 1)) + b.substr(r.below(b.size() + 1));
		break;
	}
	case 5: case 6: kind = "token-soup"; text = token_soup(r, t); break;
	case 7: kind = "random-bytes"; text = gen_bytes(r, r.chance(1, 10) ? 5000 : 60); break;
	case 8: kind = "nested"; text = nested(r); if (r.chance(1, 5)) text = corrupt(r, text); break;
	case 9: kind = "long"; text = long_thing(r); if (r.chance(1, 5)) text = corrupt(r, text); break;
	default:
		switch (r.below(3)) {
		case 0: kind = "payload"; text = payload_text(r); break;
		case 1: kind = "entities"; t = SERIALIZE_XMLPLIST; text = entity_text(r); break;
		default: kind = "aliases"; t = SERIALIZE_YAML; text = alias_text(r); break;
		}
	}
	if (kind[0] == 'n' || kind[0] == 'l' || kind[0] == 'p') t = text[0] == '<' ? SERIALIZE_XMLPLIST : text[0] == '[' || text[0] == '{' ? SERIALIZE_JSON : r.coin() ? SERIALIZE_YAML : SERIALIZE_BUNDLEHDR;
	describe(cat(kind, " ", format_name(t), " ", printable(text, 12000)));
	parse_all_ways(r, text, t);
	count(kind);
	nontrivial(hash(text));
	if (text.size() < 120) sample(cat(format_name(t), " ", kind, " ", printable(text)));
}

static void quiet(void *, const char *, ...) {}

int main(int argc, char **argv) {
	xmlSetGenericErrorFunc(0, quiet);
	 return vh::run(argc, argv, one); }
