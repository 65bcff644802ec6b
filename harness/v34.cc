// V34: running out of memory is reported and damages nothing.
#include "io.h"
#include "failnew.h"
#include <Variant/Blob.h>
#include <Variant/Extensions.h>
#include <Variant/Path.h>
#include <Variant/Payload.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <math.h>
#include <memory>
using namespace vh;
using namespace libvariant;

struct Res {
	Variant v, w;            // a result; a value that is changed
	std::string s;
	bool yes;
	Res() : yes(false) {}
};
struct Given { Variant v; MV was; };
struct Job {
	const char *name;
	std::string about;
	std::vector<Given> given;                  // may not change
	std::function<void(Res &)> before;         // not under test
	std::function<void(Res &)> run;
	SerializeType text;                        // the result text is compared as a document of this format
	Job() : name(""), text(SERIALIZE_GUESS) {}
};
static Given given(const MV &m, Rng &r) { Given g; g.v = to_variant(m, r); g.was = m; return g; }
static std::string outcome(const Res &r) { return cat(show(from_variant(r.v), 100000), "|", show(from_variant(r.w), 100000), "|", r.s, "|", r.yes); }

static MV small(Rng &r) { Gen g; g.max_depth = 3; g.max_items = 4; g.big_strings = r.chance(1, 4); return gen_container(r, g); }

static Job read_job(Rng &r) {
	Job j;
	SerializeType t = FORMATS[r.below(4)];
	MV m = gen_doc(r, t);
	std::string text = Serialize(to_variant(m), t, r.coin() ? gen_params(r, t) : Variant(Variant::NullType));
	if (r.chance(1, 5)) text = corrupt(r, text);
	if (t == SERIALIZE_JSON && r.chance(1, 4)) t = SERIALIZE_GUESS;
	j.name = t == SERIALIZE_GUESS ? "read-guess" : t == SERIALIZE_JSON ? "read-json" : t == SERIALIZE_YAML ? "read-yaml" : t == SERIALIZE_XMLPLIST ? "read-xml" : "read-bundle";
	j.about = printable(text, 1500);
	int how = r.below(4);
	uint64_t seed = r.next();
	j.run = [=](Res &x) {
		if (how == 0) x.v = Deserialize(text, t);
		else if (how == 1) x.v = Deserialize(text.data(), text.size(), t);
		else if (how == 2) { Feed f(text, seed); FeedBuf b(&f); x.v = DeserializeFile(&b, t); }
		else { std::istringstream in(text); x.v = DeserializeFile(in.rdbuf(), t); }
	};
	return j;
}
static Job write_job(Rng &r) {
	Job j;
	SerializeType t = FORMATS[r.below(4)];
	MV m = gen_doc(r, t);
	Variant params = r.coin() ? gen_params(r, t) : Variant(Variant::NullType);
	j.given.push_back(given(m, r));
	Variant v = j.given[0].v;
	j.name = t == SERIALIZE_JSON ? "write-json" : t == SERIALIZE_YAML ? "write-yaml" : t == SERIALIZE_XMLPLIST ? "write-xml" : "write-bundle";
	j.about = show(m);
	int how = r.below(2);
	uint64_t seed = r.next();
	j.run = [=](Res &x) {
		if (how == 0) x.s = Serialize(v, t, params);
		else { Sink k(seed); k.data.reserve(1 << 20); SinkBuf b(&k); Serialize(&b, v, t, params); x.s = k.data; }
	};
	return j;
}
static Job payload_job(Rng &r) {
	Job j;
	SerializeType t = FORMATS[r.below(4)];
	std::string bytes = gen_bytes(r, 200, false);
	MV m = MV::Map();
	m.m["a"] = MV::Int(3);
	if (t == SERIALIZE_BUNDLEHDR) m.m["payload.data"] = MV::Blob(bytes); else { MV x = MV::Map(); x.m["data"] = MV::Blob(bytes); m.m["payload"] = x; }
	Variant v = to_variant(m);
	std::string text = SerializeWithPayload(v.Copy(), t);
	bool rd = r.coin();
	j.name = rd ? "read-payload" : "write-payload";
	j.about = show(m);
	j.before = [=](Res &x) { x.w = v.Copy(); };
	j.run = [=](Res &x) { if (rd) x.v = DeserializeWithPayload(text, t); else x.s = SerializeWithPayload(x.w, t); };
	return j;
}
static Job value_job(Rng &r) {
	Job j;
	MV a = small(r), b = small(r);
	j.given.push_back(given(a, r));
	j.given.push_back(given(b, r));
	Variant va = j.given[0].v, vb = j.given[1].v;
	Gen g;
	std::string k = !a.m.empty() && r.coin() ? a.m.begin()->first : gen_key(r, g);
	unsigned at = r.below(a.l.size() + 2);
	j.about = cat(show(a, 700), " and ", show(b, 700));
	switch (r.below(9)) {
	case 0: j.name = "copy"; j.run = [=](Res &x) { x.v = va.Copy(); }; break;
	case 1: j.name = "insert"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { if (x.w.IsList()) x.w.Append(vb); else x.w[k] = vb; }; break;
	case 2: j.name = "element"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { if (x.w.IsList()) x.w[at] = "a text that is longer than any short buffer"; else x.w[k]["and"]["below"] = 3; }; break;
	case 3: j.name = "compare"; j.run = [=](Res &x) { x.yes = va == vb; }; break;
	case 4: j.name = "merge"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { x.w.Merge(vb); }; break;
	case 5: j.name = "map-index"; j.run = [=](Res &x) { x.yes = va.Contains(k); if (x.yes) x.v = va.At(k); }; break;
	case 6: j.name = "conversion"; j.run = [=](Res &x) { if (va.IsMap()) x.yes = va.AsMap().size() > 1; else x.yes = va.AsList().size() > 1; }; break;
	case 7: { MV n = gen_scalar(r, g); Variant vn = to_variant(n); j.name = "text"; j.about = show(n); j.run = [=](Res &x) { x.s = vn.AsString(); }; break; }
	default: j.name = "assign"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { x.w.Assign(vb); }; break;
	}
	return j;
}
static Job path_job(Rng &r) {
	Job j;
	MV a = small(r);
	j.given.push_back(given(a, r));
	Variant va = j.given[0].v;
	static const char *paths[] = { "/a/b/c", "a[2]/b", "[1][0]/x", "/key with space/next", "/a" };
	std::string p = paths[r.below(5)];
	j.about = cat(p, " in ", show(a, 700));
	j.before = [=](Res &x) { x.w = va.Copy(); };
	switch (r.below(4)) {
	case 0: j.name = "set-path"; j.run = [=](Res &x) { x.w.SetPath(p, va); }; break;
	case 1: j.name = "erase-path"; j.run = [=](Res &x) { x.w.ErasePath(p, true); }; break;
	case 2: j.name = "path-text"; j.run = [=](Res &x) { x.s = PathString(ParsePath(p)); }; break;
	default: j.name = "has-path"; j.run = [=](Res &x) { x.yes = va.HasPath(p); }; break;
	}
	return j;
}
static Job extension_job(Rng &r) {
	Job j;
	MV a = MV::Map(), b;
	a.m["x"] = small(r);
	a.m["y"] = gen_scalar(r, Gen());
	b = a;
	if (r.coin()) b.m["y"] = small(r); else b.m["z"] = small(r);
	j.given.push_back(given(a, r));
	j.given.push_back(given(b, r));
	Variant va = j.given[0].v, vb = j.given[1].v;
	j.about = cat(show(a, 700), " and ", show(b, 700));
	switch (r.below(8)) {
	case 0: j.name = "flatten"; j.run = [=](Res &x) { x.v = FlattenPath(va); }; break;
	case 1: { Variant f = FlattenPath(va); j.name = "expand"; j.run = [=](Res &x) { x.v = ExpandPath(f); }; break; }
	case 2: j.name = "rdiff"; j.run = [=](Res &x) { x.v = RDiff(va, vb); }; break;
	case 3: j.name = "json-diff"; j.run = [=](Res &x) { x.v = JSONDiff(va, vb); }; break;
	case 4: { Variant d = JSONDiff(va, vb); j.name = "json-patch"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { if (!JSONPatch(x.w, d).first) throw std::runtime_error("not patched"); }; break; }
	case 5: j.name = "pointer"; j.run = [=](Res &x) { x.v = JSONPointerLookup("/x", va); }; break;
	case 6: j.name = "pointer-add"; j.before = [=](Res &x) { x.w = va.Copy(); }; j.run = [=](Res &x) { JSONPointerAdd("/q~1r", x.w, vb); }; break;
	default: j.name = "str-map"; j.run = [=](Res &x) { std::map<std::string, std::string> m = FlattenPathToStrStrMap(va); for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) x.s += i->first + "=" + i->second + "\n"; }; break;
	}
	return j;
}
static Job schema_job(Rng &r) {
	Job j;
	static const char *schemas[] = {
		"{\"type\":\"object\",\"required\":[\"x\"],\"properties\":{\"x\":{\"anyOf\":[{\"type\":\"string\",\"pattern\":\"^a+$\"},{\"type\":\"array\",\"items\":{\"minimum\":3},\"uniqueItems\":true},{\"$ref\":\"#/definitions/d\"}]},\"n\":{\"default\":{\"a\":[1,2]}}},\"patternProperties\":{\"^p\":{\"type\":\"integer\"}},\"additionalProperties\":{\"$ref\":\"#/definitions/d\"},\"definitions\":{\"d\":{\"enum\":[1,\"two\",[3]],\"default\":7}}}",
		"{\"id\":\"http://example.com/s\",\"allOf\":[{\"$ref\":\"#/definitions/d\"},{\"not\":{\"required\":[\"q\"]}}],\"definitions\":{\"d\":{\"oneOf\":[{\"maxProperties\":1},{\"minProperties\":2}]}}}" };
	static const char *docs[] = { "{\"x\":\"aaa\",\"p1\":3}", "{\"x\":[3,4,5],\"n\":null}", "{\"x\":\"two\",\"other\":1}", "{\"x\":\"zzz\"}", "{\"q\":1,\"z\":2}", "{}" };
	std::string s = schemas[r.below(2)], d = docs[r.below(6)];
	Variant vs = DeserializeJSON(s), vd = DeserializeJSON(d);
	Given g = { vs, from_variant(vs) }, h = { vd, from_variant(vd) };
	j.given.push_back(g);
	j.given.push_back(h);
	j.about = s + " for " + d;
	if (r.chance(1, 4)) {
		static const char *refs[] = { "../c/d", "x?y#z", "//other/p/./q", "#frag", "a/../../b/", "http://other.org/" };
		std::string ref = refs[r.below(6)];
		j.name = "address";
		j.about = ref;
		j.run = [=](Res &x) { x.s = SchemaLoader::ResolveURI("http://example.com/a/b/name", ref); };
	} else if (r.chance(1, 3)) {
		j.name = "registered";
		j.run = [=](Res &x) { SchemaLoader l; l.AddSchema("http://example.com/main", vs); x.yes = SchemaValidate("http://example.com/main", vd, &l).Error(); };
	} else if (r.coin()) { j.name = "validate"; j.run = [=](Res &x) { x.yes = SchemaValidate(vs, vd).Error(); }; }
	else { j.name = "defaults"; j.before = [=](Res &x) { x.w = vd.Copy(); }; j.run = [=](Res &x) { AddSchemaDefaults(x.w, vs); }; }
	return j;
}
static Job blob_job(Rng &r) {
	Job j;
	std::string bytes = gen_bytes(r, 300, false), more = gen_bytes(r, 100, false);
	BlobPtr b = make_blob(bytes, &r);
	j.name = "blob";
	j.about = printable(bytes);
	Variant v = b;
	j.given.push_back(Given());
	j.given[0].v = v;
	j.given[0].was = MV::Blob(bytes);
	int how = r.below(3);
	j.run = [=](Res &x) {
		if (how == 0) x.v = b->Copy();
		else if (how == 1) { BlobPtr c = Blob::CreateCopy(bytes.data(), bytes.size()); x.v = c; }
		else x.v = v.Copy();
	};
	return j;
}

static long held(const Job &j, long n, bool persistent, std::string *said) {
	long before = failnew::live;
	{
		Res x;
		if (j.before) j.before(x);
		try { failnew::Arm a(n, persistent); j.run(x); if (said) *said = ""; }
		catch (const std::exception &e) { failnew::armed = false; if (said) *said = e.what(); }
	}
	return failnew::live - before;
}
static void one(Ctx &c) {
	Rng &r = c.rng;
	static Job (*const make[])(Rng &) = { read_job, read_job, read_job, write_job, write_job, payload_job, value_job, value_job, path_job, extension_job, extension_job, schema_job, blob_job };
	Job j = make[r.below(sizeof(make) / sizeof(*make))](r);
	describe(cat(j.name, ": ", j.about));
	std::string want;
	bool refused = false;
	long total = 0;
	for (int k = 0; k < 2; ++k) {
		Res x;
		if (j.before) j.before(x);
		try { failnew::Arm a(0, false); j.run(x); }
		catch (const std::exception &e) { refused = true; }
		failnew::armed = false;
		total = failnew::made;
		want = refused ? "refused" : outcome(x);
	}
	count(j.name);
	if (!total) { count("no-request"); return; }
	// every request of a short piece of work, some of a long one
	bool each = total <= 12;
	for (int k = 0; k < (each ? total : 6); ++k) {
		long n = each ? k + 1 : 1 + (long)r.below(total);
		bool persistent = r.chance(1, 3);
		std::string what = cat(j.name, " with request ", n, " of ", total, persistent ? " and all later ones" : "", " failing: ", j.about);
		describe(what);
		bool raised = false, memory = false;
		std::string got;
		unsigned fails;
		{
			Res x;
			if (j.before) j.before(x);
			std::string said;
			try { failnew::Arm a(n, persistent); j.run(x); fails = failnew::failures; }
			catch (const std::bad_alloc &) { failnew::armed = false; raised = memory = true; fails = failnew::failures; }
			catch (const std::exception &e) { failnew::armed = false; raised = true; fails = failnew::failures; said = e.what(); }
			got = outcome(x);
			if (raised && !memory) count("other-exception");
			x.w = 3;
			x.w = Variant::MapType;
			x.w["still"] = "usable";
		}
		if (!fails) { count("not-reached"); continue; }
		count(memory ? "reported" : raised ? "refused" : "absorbed");
		VH_CHECK(raised || got == want, "silent-damage", printable(got, 600), " instead of ", printable(want, 600), " | ", what);
		for (size_t i = 0; i < j.given.size(); ++i) VH_CHECK(diff(j.given[i].was, from_variant(j.given[i].v)).empty(), "input-changed", diff(j.given[i].was, from_variant(j.given[i].v)), " | ", what);
		// growth on every repetition is a leak
		if (held(j, n, persistent, 0) > 0 && held(j, n, persistent, 0) > 0) { long h = held(j, n, persistent, 0); VH_CHECK(h <= 0, "held", h, " blocks | ", what); }
		Res x;
		if (j.before) j.before(x);
		try { j.run(x); got = outcome(x); } catch (const std::exception &e) { got = "refused"; }
		VH_CHECK(got == want, "not-repeatable", printable(got, 600), " instead of ", printable(want, 600), " | ", what);
	}
	nontrivial(hash(j.about, mix(total, hash(j.name))));
	sample(printable(cat(j.name, ": ", total, " requests for ", j.about), 300));
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
