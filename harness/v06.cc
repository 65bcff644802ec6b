// V06: JSON text preserves every document and is standard JSON.
#include "model.h"
#include <nlohmann/json.hpp>
#include <math.h>
using namespace vh;
using namespace libvariant;

static std::string unbase64(const std::string &s) {
	static const std::string tab = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	unsigned acc = 0, n = 0;
	for (size_t i = 0; i < s.size() && s[i] != '='; ++i) {
		size_t p = tab.find(s[i]);
		if (p == std::string::npos) throw Fail("json-blob-base64", "not base64: " + printable(s));
		acc = (acc << 6) | p;
		n += 6;
		if (n >= 8) { n -= 8; o += (char)((acc >> n) & 0xff); }
	}
	return o;
}

static MV from_json(const nlohmann::json &j) {
	if (j.is_null()) return MV::Null();
	if (j.is_boolean()) return MV::Bool(j.get<bool>());
	if (j.is_number_float()) return MV::Float(j.get<double>());
	if (j.is_number_unsigned()) return MV::Uint(j.get<uint64_t>());
	if (j.is_number_integer()) return MV::Int(j.get<int64_t>());
	if (j.is_string()) {
		std::string s = j.get<std::string>();
		if (s.compare(0, 5, std::string("\0BLOB", 5)) == 0) return MV::Blob(unbase64(s.substr(5)));
		return MV::Str(s);
	}
	if (j.is_array()) {
		MV v = MV::List();
		for (auto &x : j) v.l.push_back(from_json(x));
		return v;
	}
	MV v = MV::Map();
	for (auto i = j.begin(); i != j.end(); ++i) v.m[i.key()] = from_json(i.value());
	return v;
}

// The text with whitespace outside strings removed.
static std::string squeeze(const std::string &s) {
	std::string o;
	bool in = false;
	for (size_t i = 0; i < s.size(); ++i) {
		char c = s[i];
		if (in) {
			o += c;
			if (c == '\\' && i + 1 < s.size()) o += s[++i];
			else if (c == '"') in = false;
		} else if (c == '"') { in = true; o += c; }
		else if (c != ' ' && c != '\n' && c != '\t' && c != '\r') o += c;
	}
	return o;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	Gen g;
	g.max_depth = r.chance(1, 20) ? 12 : 4;
	if (r.chance(1, 10)) g.max_items = 12;
	g.nonfinite = r.chance(1, 5);
	MV doc = gen_container(r, g);
	if (r.chance(1, 40)) {          // deep nesting, exercises indentation beyond the write buffer
		int n = r.range(20, 90);
		for (int i = 0; i < n; ++i) { MV o = r.coin() ? MV::List() : MV::Map(); if (o.k == K_LIST) o.l.push_back(doc); else o.m[gen_key(r, g)] = doc; doc = o; }
	}
	if (r.chance(1, 600)) { doc = gen_large(r, g, 900); count("large"); }
	describe(show(doc, 12000));
	Variant v = to_variant(doc, r);
	Variant params = Variant::MapType;
	bool pretty = r.coin();
	if (r.chance(3, 4)) params["pretty"] = pretty;
	else { pretty = false; params = Variant::NullType; }
	if (r.chance(1, 3)) params["indent"] = r.chance(1, 4) ? r.range(100, 150) : r.range(0, 20);
	if (r.chance(1, 3)) params["precision"] = r.range(17, 25);
	std::string text = Serialize(v, SERIALIZE_JSON, params);
	count("documents");
	count(pretty ? "pretty" : "compact");
	if (doc.k == K_MAP) count("root-map"); else count("root-list");
	if (depth(doc) > 15) count("deep-nesting");
	EqOpt eo;
	eo.nonfinite_as_null = true;
	// unchanged by writing
	std::string d = diff(doc, from_variant(v));
	VH_CHECK(d.empty(), "json-writing-changed-document", d, " | ", show(doc));
	// read back
	MV back;
	try {
		back = from_variant(Deserialize(text, SERIALIZE_JSON));
	} catch (const std::exception &e) {
		throw Fail("json-roundtrip-rejected", cat("own output rejected: ", e.what(), " | ", show(doc), " | text ", printable(text, 1500)));
	}
	d = diff(doc, back, eo);
	VH_CHECK(d.empty(), "json-roundtrip-differs", d, " | ", show(doc), " | text ", printable(text, 1500));
	// independent parser
	nlohmann::json j = nlohmann::json::parse(text, nullptr, false);
	VH_CHECK(!j.is_discarded(), "json-output-malformed", "independent parser rejects: ", printable(text, 2500));
	d = diff(doc, from_json(j), eo);
	VH_CHECK(d.empty(), "json-output-differs", d, " | ", show(doc), " | text ", printable(text, 1500));
	// pretty-printing changes whitespace only
	Variant p2 = params.IsMap() ? params.Copy() : Variant(Variant::MapType);
	p2["pretty"] = !pretty;
	std::string text2 = Serialize(v, SERIALIZE_JSON, p2);
	VH_CHECK(squeeze(text) == squeeze(text2), "json-pretty-changes-content", show(doc), " | ", printable(text), " | ", printable(text2));
	// a second write gives the same text
	VH_CHECK(Serialize(v, SERIALIZE_JSON, params) == text, "json-not-repeatable", show(doc));
	// strict mode: refuses what JSON cannot hold, otherwise same content
	if (r.chance(1, 4)) {
		Variant ps = Variant::MapType;
		ps["strict"] = true;
		std::function<bool(const MV &)> needs = [&](const MV &x) -> bool {
			if (x.k == K_BLOB) return true;
			if (x.k == K_FLOAT && !std::isfinite(x.f)) return true;
			for (auto &y : x.l) if (needs(y)) return true;
			for (auto &y : x.m) if (needs(y.second)) return true;
			return false;
		};
		bool threw = false;
		std::string st;
		try { st = Serialize(v, SERIALIZE_JSON, ps); } catch (const std::exception &) { threw = true; }
		count(threw ? "strict-refused" : "strict-accepted");
		VH_CHECK(threw == needs(doc), "json-strict", threw ? "refused representable document " : "accepted unrepresentable document ", show(doc));
		if (!threw) VH_CHECK(squeeze(st) == squeeze(text) || params.IsMap(), "json-strict-differs", show(doc));
	}
	size_t n = nodes(doc);
	count("nodes", n);
	if (n > 2) nontrivial(shape(doc));
	if (n > 4 && n < 25) sample("params pretty=" + cat(pretty) + " doc=" + show(doc, 500) + " text=" + printable(text, 500));
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
