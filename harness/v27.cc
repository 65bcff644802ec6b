// V27: many threads use the library at the same time, each on objects of its
// own or reading one shared document. Every case runs in a fresh child process,
// so that the first use of each facility happens concurrently, with
// ThreadSanitizer watching all accesses, and every result is compared with that
// of the same work done alone afterwards.
#include "model.h"
#include "io.h"
#include <Variant/Variant.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Extensions.h>
#include <Variant/Payload.h>
#include <Variant/ArgParse.h>
#include <Variant/GuessFormat.h>
#include <atomic>
#include <thread>
#include <fstream>
#include <algorithm>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

// regexec locks its pattern inside the C library, where the monitor sees the
// memory it grows but not the lock
extern "C" const char *__tsan_default_suppressions() { return "called_from_lib:libc.so.6\n"; }
extern "C" const char *__tsan_default_options() { return "exitcode=0:report_signal_unsafe=0:history_size=2"; }

static const Variant *shared_doc = 0;
static std::string dir;

static Gen small() { Gen g; g.max_depth = 3; g.max_items = 4; g.big_strings = false; return g; }
static std::string result(const Variant &v) { return show(from_variant(v), 100000); }

//------------------------------------------------------------------ own objects

static std::string round_trip(Rng &r, SerializeType t) {
	MV d = gen_doc(r, t);
	Variant v = to_variant(d, r);
	Variant p = gen_params(r, t);
	std::string text;
	switch (r.below(3)) {
	case 0: text = Serialize(v, t, p); break;
	case 1: { std::ostringstream o; Serialize(o.rdbuf(), v, t, p); text = o.str(); break; }
	default: {
		char *b = 0;
		size_t n = 0;
		FILE *f = open_memstream(&b, &n);
		Serialize(f, v, t, p);
		fclose(f);
		text.assign(b, n);
		free(b);
	}
	}
	std::string out = text;
	switch (r.below(4)) {
	case 0: out += result(Deserialize(text, t)); break;
	case 1: out += result(Deserialize(text.data(), text.size(), t)); break;
	case 2: { std::istringstream i(text); out += result(DeserializeFile(i.rdbuf(), t)); break; }
	default: { Feed f(text, r.next()); FeedBuf b(&f); out += result(DeserializeFile(&b, t)); }
	}
	return out;
}
static std::string t_json(Rng &r) { return round_trip(r, SERIALIZE_JSON); }
static std::string t_yaml(Rng &r) { return round_trip(r, SERIALIZE_YAML); }
static std::string t_xml(Rng &r) { return round_trip(r, SERIALIZE_XMLPLIST); }
static std::string t_bundle(Rng &r) { return round_trip(r, SERIALIZE_BUNDLEHDR); }

// a message without addresses or anything else that may differ between runs
static std::string t_broken(Rng &r) {
	std::string out;
	for (int k = 0; k < 3; ++k) {
		SerializeType t = FORMATS[r.below(4)];
		std::string text = corrupt(r, gen_text(r, t).substr(0, 3000));
		if (t == SERIALIZE_YAML && text.find('*') != std::string::npos) continue;
		try { out += result(Deserialize(text, t)); }
		catch (const std::exception &e) { out += cat("raised ", e.what(), "\n"); }
	}
	return out;
}
static std::string t_guess(Rng &r) {
	SerializeType t = FORMATS[r.below(3)];
	std::string text = gen_text(r, t).substr(0, 4000);
	std::string out;
	try { out = cat((int)GuessFormat(CreateParserInput(text).get()), " ", result(Deserialize(text, SERIALIZE_GUESS))); }
	catch (const std::exception &e) { out += cat("raised ", e.what()); }
	static const char *const scalars[] = { "1", "-17", "0x1f", "1e5", "yes", "off", "~", "null", ".inf", "-.inf", "1.5", "text", "12abc", "0o17", "1_000", "'1'", "\"t\"", "!!str 5" };
	for (int i = 0; i < 8; ++i) out += result(Deserialize(std::string("- ") + r.pick(scalars) + "\n", SERIALIZE_YAML));
	return out;
}
static std::string t_named(Rng &r) {
	// a file of its own for each task: the seed is different for each
	std::string name = cat(dir, "/own-", getpid(), "-", r.next());
	SerializeType t = FORMATS[r.below(4)];
	Variant v = to_variant(gen_doc(r, t), r);
	std::string out;
	Serialize(name.c_str(), v, t, gen_params(r, t));
	out = result(DeserializeFile(name.c_str(), t));
	unlink(name.c_str());
	try { DeserializeFile(name.c_str(), t); } catch (const std::exception &e) { std::string w = e.what(); size_t p = w.find(name); if (p != std::string::npos) w.erase(p, name.size()); out += w; }
	return out;
}
static std::string t_typed(Rng &r) {
	static const char *const texts[] = { "12", "-3", "1.5", "true", "no", "1e400", "9223372036854775808", "abc", "", " 7", "0x10", "on", "F" };
	std::string out;
	for (int i = 0; i < 12; ++i) {
		Variant v = r.pick(texts);
		const Variant &c = v;
		try { switch (r.below(5)) {
		case 0: out += cat(c.AsInt()); break;
		case 1: out += cat(c.AsUnsigned()); break;
		case 2: out += cat(c.AsDouble()); break;
		case 3: out += cat(c.AsBool()); break;
		default: out += c.AsString();
		} } catch (const std::exception &e) { out += cat(" raised ", e.what(), " "); }
	}
	return out;
}
static std::string t_values(Rng &r) {
	Gen g = small();
	Variant a = to_variant(gen_container(r, g), r), m = Variant::MapType, l = Variant::ListType;
	for (int i = 0; i < 12; ++i) {
		VariantRef ref = m[cat("k", r.below(4))];
		switch (r.below(6)) {
		case 0: ref = gen_int(r); break;
		case 1: ref = a.Copy(); break;
		case 2: ref = Variant(gen_string(r, g)); break;
		case 3: l.Append(a); break;
		case 4: if (ref.Exists()) l.Append(Variant(ref)); break;
		default: { std::string k = cat("k", r.below(4)); if (m.Contains(k)) m.Erase(k); }
		}
	}
	m["l"] = l;
	std::string path = cat("x/[", r.below(3), "]/y");
	m.SetPath(path, r.range(0, 9));
	return result(m) + PathString(ParsePath(path)) + cat(m == m.Copy(), l < m, result(m.GetPath(path)));
}
static std::string t_tools(Rng &r) {
	Gen g = small();
	g.blobs = false;
	Variant a = to_variant(gen_container(r, g), r), b = to_variant(gen_container(r, g), r);
	std::string out;
	Variant d = JSONDiff(a, b), c = a.Copy();
	std::pair<bool, std::string> res = JSONPatch(c, d);
	out += result(d) + cat(res.first, res.second) + result(c);
	try { Variant f = FlattenPath(a); out += result(f) + result(ExpandPath(f)); } catch (const std::exception &e) { out += e.what(); }
	try { Variant x = RDiff(a, b), u = a.Copy(); RUpdate(u, x); out += result(x) + result(u); } catch (const std::exception &e) { out += e.what(); }
	Variant t = Variant::MapType;
	JSONPointerAdd("/a~1b", t, b);
	out += result(JSONPointerLookup("/a~1b", t));
	try { JSONPointerRemove("/none", t); } catch (const std::exception &e) { out += e.what(); }
	return out;
}
static std::string t_blobs(Rng &r) {
	std::string bytes = gen_bytes(r, 3000);
	Variant v = Variant::MapType;
	v["b"] = make_blob(bytes, &r);
	Variant c = v.Copy();
	std::string out = result(c) + cat(v == c);
	Variant p;
	p["path"] = "b";
	SerializeType t = FORMATS[r.below(3)];
	std::string text = Serialize(v, t);
	out += text + result(Deserialize(text, t));
	return out;
}
static std::string t_payload(Rng &r) {
	SerializeType t = FORMATS[r.below(4)];
	Variant v = Variant::MapType, p = Variant::MapType;
	v["name"] = "text";
	std::string bytes = gen_bytes(r, 2000);
	v["data"] = make_blob(bytes, &r);
	std::string text;
	try { text = SerializeWithPayload(v, t); return text + result(DeserializeWithPayload(text, t)); }
	catch (const std::exception &e) { return text + cat("raised ", e.what()); }
}
static std::string t_stream(Rng &r) {
	std::string text, out;
	int n = r.range(1, 4);
	for (int i = 0; i < n; ++i) text += "---\n" + SerializeYAML(to_variant(gen_doc(r, SERIALIZE_YAML), r));
	for (LoadAllIterator i = DeserializeAll(text, SERIALIZE_YAML), e; i != e; ++i) out += result(*i);
	std::ostringstream o;
	Emitter em = CreateEmitter(CreateEmitterOutput(o.rdbuf()), FORMATS[r.below(3)]);
	em.BeginDocument();
	em.BeginMap();
	em << "k" << 1.5 << "l";
	em.BeginList();
	em << 1 << true << "x";
	em.EndList();
	em.EndMap();
	em.EndDocument();
	em.Flush();
	return out + o.str();
}

//----------------------------------------------------------------------- schemas

static const char *const SCHEMAS[] = {
	"{\"$ref\": \"http://json-schema.org/draft-04/schema#\"}",
	"{\"type\": \"object\", \"properties\": {\"a\": {\"type\": \"integer\", \"minimum\": 0}, \"b\": {\"$ref\": \"#/definitions/s\"}}, \"definitions\": {\"s\": {\"type\": \"string\", \"pattern\": \"^[a-z]+$\", \"default\": \"q\"}}, \"required\": [\"a\"]}",
	"{\"type\": [\"array\", \"object\"], \"items\": {\"oneOf\": [{\"type\": \"integer\"}, {\"type\": \"string\"}]}, \"uniqueItems\": true, \"patternProperties\": {\"^x\": {\"type\": \"string\"}}}",
	"{\"$schema\": \"http://json-schema.org/draft-04/schema#\", \"allOf\": [{\"properties\": {\"a\": {\"default\": [1, {\"z\": 2}]}}}, {\"dependencies\": {\"a\": [\"b\"]}}]}",
	"{\"properties\": {\"a\": {\"enum\": [1, \"x\", null]}, \"c\": {\"$ref\": \"#\"}}, \"additionalProperties\": {\"type\": \"boolean\"}}",
	"{\"id\": \"http://h/base\", \"properties\": {\"a\": {\"$ref\": \"other#/definitions/n\"}}, \"definitions\": {\"o\": {\"id\": \"other\", \"definitions\": {\"n\": {\"type\": \"integer\"}}}}}",
	"{\"type\": 5}",
	"{\"$ref\": \"http://missing.example/x\"}"
};
static const char *const DOCS[] = {
	"{\"a\": 1, \"b\": \"abc\"}", "{\"a\": -1, \"b\": \"ABC\", \"c\": {\"a\": 7}}", "[1, \"x\", 2, 1]", "{\"xa\": 1, \"a\": null}",
	"{\"type\": \"object\", \"properties\": {\"q\": {\"minimum\": 3}}, \"required\": []}", "{}", "{\"c\": {\"c\": {\"c\": {\"a\": 1, \"q\": 3}}}}",
	"{\"definitions\": {\"z\": {\"type\": \"nothing\"}}, \"items\": [{}, {\"maxLength\": -1}]}", "[]"
};
static std::string verdict(const SchemaResult &s) {
	return cat(s.Error(), s.ValidationErrors(), s.SchemaErrors(), s.PrettyPrintMessage());
}
static std::string t_schema(Rng &r) {
	std::string out;
	for (int i = r.range(1, 3); i; --i) {
		Variant s = DeserializeJSON(r.pick(SCHEMAS)), d = DeserializeJSON(r.pick(DOCS));
		try {
			if (r.coin()) out += verdict(SchemaValidate(s, d));
			else {
				SchemaLoader l;
				l.AddSchema("http://own/doc", DeserializeJSON(r.pick(SCHEMAS)));
				if (r.coin()) out += verdict(SchemaValidate(s, d, &l));
				else out += verdict(SchemaValidate("http://own/doc", d, &l));
				out += result(l.GetSchema("http://json-schema.org/draft-04/schema#"));
				if (r.coin()) { SchemaLoader k(&l); out += verdict(SchemaValidate("http://own/doc", d, &k)); }
				l.ForgetSchema("http://own/doc");
			}
		} catch (const std::exception &e) { out += cat("raised ", e.what()); }
	}
	return out;
}
static std::string t_metaschema(Rng &r) {
	Variant d = DeserializeJSON(r.pick(DOCS));
	std::string out;
	try {
		switch (r.below(3)) {
		case 0: out = verdict(SchemaValidate("http://json-schema.org/draft-04/schema#", d)); break;
		case 1: { SchemaLoader l; out = verdict(SchemaValidate(l.GetSchema("http://json-schema.org/draft-04/schema"), d, &l)); break; }
		default: d["$schema"] = "http://json-schema.org/draft-04/schema#"; out = verdict(SchemaValidate(Variant::NullType, d));
		}
	} catch (const std::exception &e) { out += cat("raised ", e.what()); }
	return out;
}
static std::string t_defaults(Rng &r) {
	Variant s = DeserializeJSON(r.pick(SCHEMAS)), d = DeserializeJSON(r.pick(DOCS));
	try { AddSchemaDefaults(s, d); } catch (const std::exception &e) { return cat("raised ", e.what()); }
	if (d.IsMap()) d["more"] = 1;
	return result(d) + result(s);
}
static std::string t_address(Rng &r) {
	static const char *const uris[] = { "http://a/b/c?q#h", "../x", "#f", "file:///t/u", "//h/p", "", "a:b", "%7Euser/x y", "http://u@h:80/../z" };
	std::string out;
	for (int i = 0; i < 6; ++i) {
		try { out += SchemaLoader::ResolveURI(r.pick(uris), r.pick(uris)); } catch (const std::exception &e) { out += e.what(); }
		SchemaLoader::URIInfo u;
		out += cat(SchemaLoader::ParseURI(u, r.pick(uris)), u.protocol, u.authority, u.pathname, u.search, u.hash, "|");
	}
	return out;
}
static std::string t_files(Rng &r) {
	std::string out;
	try {
		AdvSchemaLoader l;
		l.AddPath(dir);
		const char *names[] = { "one.json", "two.json", "none.json" };
		std::string n = r.pick(names);
		out = verdict(SchemaValidate(r.coin() ? "file://" + dir + "/" + n : n, DeserializeJSON(r.pick(DOCS)), &l));
	} catch (const std::exception &e) { out = cat("raised ", e.what()); }
	return out;
}
static std::string t_options(Rng &r) {
	std::string out;
	try {
		ArgParse p("prog");
		p.SetDescription("text");
		p.AddOption("a/b", 'a', "alpha", "help").Type(ARGTYPE_INT).Minimum(1).Maximum(9).Default(r.range(1, 9));
		p.AddOption("c", 'c', "count").Action(ARGACTION_COUNT);
		p.AddFlag("f", 'f', "flag").Group("g");
		p.AddArgument("file", "input").Pattern("^[a-z]*$");
		p.AddGroup("g", "title").MutuallyExclusive();
		if (r.coin()) p.AddConfigDefaults();
		if (r.coin()) p.AddOption("s", 's', "sss").AddChoice("x").AddChoice(r.range(0, 4));
		p.Validate();
		Variant d = p.GetDescription();
		out = result(d) + result(p.GenerateSchema());
		ArgParse q("other", false);
		q.Merge(d);
		q.Validate();
		out += result(q.GetDescription());
		Variant bad = DeserializeJSON("{\"options\": {\"a\": {\"type\": 5}}, \"optionGroups\": 3}");
		try { ArgParse z; z.Merge(bad); out += "merged"; } catch (const std::exception &e) { out += e.what(); }
	} catch (const std::exception &e) { out += cat("raised ", e.what()); }
	return out;
}

//---------------------------------------------------------- one shared document

static void walk(const Variant &v, std::string &out) {
	switch (v.GetType()) {
	case Variant::ListType:
		for (Variant::ConstListIterator i = v.ListBegin(), e = v.ListEnd(); i != e; ++i) walk(*i, out);
		out += cat("#", v.Size());
		break;
	case Variant::MapType:
		for (Variant::ConstMapIterator i = v.MapBegin(), e = v.MapEnd(); i != e; ++i) { out += i->first; walk(i->second, out); }
		out += cat("#", v.Size(), v.Contains("none"));
		break;
	case Variant::StringType: out += v.AsString(); break;
	case Variant::BlobType: out += blob_bytes(v.AsBlob()); break;
	case Variant::NullType: out += "~"; break;
	default: out += v.AsString();
	}
}
static std::string t_read(Rng &r) {
	const Variant &v = *shared_doc;
	std::string out;
	switch (r.below(5)) {
	case 0: walk(v, out); break;
	case 1: out = result(v); break;
	case 2:
		for (Variant::ConstMapIterator i = v.MapBegin(), e = v.MapEnd(); i != e; ++i) {
			const Variant &c = v.At(i->first);
			walk(c, out);
			out += result(v.Get(i->first, 5)) + result(v.Get("none", "default"));
			try { v.At("none"); } catch (const std::exception &x) { out += x.what(); }
		}
		break;
	case 3: {
		for (Variant::ConstMapIterator i = v.MapBegin(), e = v.MapEnd(); i != e; ++i)
			for (Variant::ConstMapIterator j = v.MapBegin(); j != e; ++j)
				out += cat(i->second == j->second, i->second < j->second);
		break;
	}
	default:
		for (Variant::ConstMapIterator i = v.MapBegin(), e = v.MapEnd(); i != e; ++i) out += cat(i->second.GetType(), i->second.IsNumber());
	}
	return out;
}
static std::string t_copy(Rng &r) {
	Variant c = shared_doc->Copy();
	std::string out = result(c);
	c["own"] = r.range(0, 9);
	for (Variant::MapIterator i = c.MapBegin(), e = c.MapEnd(); i != e; ++i) { VariantRef x = c[i->first]; if (r.coin()) x = 1; }
	return out + result(c) + cat(c == *shared_doc);
}
static std::string t_handle(Rng &r) {
	std::vector<Variant> v;
	for (int i = 0; i < 5; ++i) v.push_back(*shared_doc);
	if (r.coin()) v.erase(v.begin());
	v[1] = 3;
	const Variant &c = v[0];
	std::string out;
	walk(c, out);
	return out;
}
static std::string t_write(Rng &r) {
	return Serialize(*shared_doc, FORMATS[r.below(3)]);
}
static std::string t_judge(Rng &r) {
	std::string out;
	try { switch (r.below(3)) {
	case 0: out = verdict(SchemaValidate(DeserializeJSON(r.pick(SCHEMAS)), *shared_doc)); break;
	case 1: out = result(RDiff(*shared_doc, Variant::MapType)); break;
	default: out = result(FlattenPath(*shared_doc));
	} } catch (const std::exception &e) { out = cat("raised ", e.what()); }
	return out;
}

struct Task { const char *name; std::string (*fn)(Rng &); bool shared; };
static const Task TASKS[] = {
	{ "json", t_json, false }, { "yaml", t_yaml, false }, { "xml", t_xml, false }, { "bundle", t_bundle, false },
	{ "broken", t_broken, false }, { "guess", t_guess, false }, { "named", t_named, false }, { "typed", t_typed, false }, { "values", t_values, false },
	{ "tools", t_tools, false }, { "blobs", t_blobs, false }, { "payload", t_payload, false }, { "stream", t_stream, false },
	{ "schema", t_schema, false }, { "metaschema", t_metaschema, false }, { "defaults", t_defaults, false }, { "address", t_address, false },
	{ "files", t_files, false }, { "options", t_options, false },
	{ "shared-read", t_read, true }, { "shared-copy", t_copy, true }, { "shared-handle", t_handle, true }, { "shared-write", t_write, true }, { "shared-judge", t_judge, true }
};
static const size_t NTASKS = sizeof TASKS / sizeof *TASKS;

struct Step { size_t task; uint64_t seed; int pause; };
struct Done { std::string out; uint64_t from, to; };

static uint64_t now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}
static std::string perform(const Step &s) {
	Rng r(s.seed);
	try { return TASKS[s.task].fn(r); }
	catch (const Fail &f) { return cat("FAIL ", f.key, " ", f.msg); }
	catch (const std::exception &e) { return cat("EXCEPTION ", e.what()); }
}
static void work(const std::vector<Step> &steps, std::vector<Done> &done, std::atomic<int> &ready, int n) {
	ready.fetch_add(1, std::memory_order_relaxed);
	while (ready.load(std::memory_order_relaxed) < n) {}
	for (size_t i = 0; i < steps.size(); ++i) {
		switch (steps[i].pause) {
		case 0: break;
		case 1: sched_yield(); break;
		default: { struct timespec t = { 0, steps[i].pause * 1000L }; nanosleep(&t, 0); }
		}
		Done d;
		d.from = now();
		d.out = perform(steps[i]);
		d.to = now();
		done.push_back(d);
	}
}
static void child(int rep, const std::vector<std::vector<Step> > &plan, uint64_t doc_seed) {
	Rng r(doc_seed);
	Gen g = small();
	g.xml_safe = true;
	MV m = MV::Map();
	for (int i = 0; i < 5; ++i) m.m[cat("k", i)] = i ? gen(r, g) : gen_container(r, g);
	Variant doc = to_variant(m);
	shared_doc = &doc;
	std::vector<std::vector<Done> > done(plan.size());
	std::atomic<int> ready(0);
	std::vector<std::thread> threads;
	for (size_t i = 0; i < plan.size(); ++i) threads.push_back(std::thread(work, std::cref(plan[i]), std::ref(done[i]), std::ref(ready), (int)plan.size()));
	for (size_t i = 0; i < threads.size(); ++i) threads[i].join();
	for (size_t i = 0; i < plan.size(); ++i) for (size_t k = 0; k < plan[i].size(); ++k) {
		std::string alone = perform(plan[i][k]);
		if (alone != done[i][k].out) dprintf(rep, "DIFF %s thread %zu step %zu: alone %s | together %s\n", TASKS[plan[i][k].task].name, i, k, printable(alone, 1500).c_str(), printable(done[i][k].out, 1500).c_str());
		if (alone.compare(0, 5, "FAIL ") == 0 || alone.compare(0, 10, "EXCEPTION ") == 0) dprintf(rep, "RAISED %s %s\n", TASKS[plan[i][k].task].name, printable(alone, 1500).c_str());
	}
	// what ran at the same time, and in which order
	std::vector<std::pair<uint64_t, std::string> > order;
	for (size_t i = 0; i < plan.size(); ++i) for (size_t k = 0; k < plan[i].size(); ++k) {
		order.push_back(std::make_pair(done[i][k].from, cat("+", i)));
		order.push_back(std::make_pair(done[i][k].to, cat("-", i)));
		for (size_t j = i + 1; j < plan.size(); ++j) for (size_t l = 0; l < plan[j].size(); ++l)
			if (done[i][k].from < done[j][l].to && done[j][l].from < done[i][k].to)
				dprintf(rep, "OVER %zu %zu %d\n", plan[i][k].task, plan[j][l].task, k == 0 && l == 0);
	}
	std::sort(order.begin(), order.end());
	std::string s;
	for (size_t i = 0; i < order.size(); ++i) s += order[i].second;
	dprintf(rep, "ORDER %s\nDONE\n", s.c_str());
}

static std::string slurp(int fd) {
	std::string s;
	char b[4096];
	lseek(fd, 0, SEEK_SET);
	for (ssize_t n; (n = read(fd, b, sizeof b)) > 0; ) s.append(b, n);
	close(fd);
	return s;
}
// The kind of the first report and the library functions in its two stacks.
static std::string report_key(const std::string &text) {
	size_t p = text.find("WARNING: ThreadSanitizer: ");
	size_t e = text.find_first_of("(\n", p);
	std::string kind = text.substr(p + 26, e - p - 26);
	while (!kind.empty() && kind[kind.size() - 1] == ' ') kind.erase(kind.size() - 1);
	for (size_t i = 0; i < kind.size(); ++i) if (kind[i] == ' ') kind[i] = '-';
	std::string out = "tsan:" + kind;
	std::istringstream in(text.substr(p));
	std::string line;
	while (std::getline(in, line)) {
		if (line.compare(0, 8, "SUMMARY:") == 0) break;
		size_t h = line.find("libvariant::");
		if (line.find("    #") != 0 || h == std::string::npos) continue;
		if (line.find("/src/") == std::string::npos && line.find("/include/Variant") == std::string::npos) continue;
		size_t q = line.find_first_of("(<", h);
		out += ":" + line.substr(h + 12, q - h - 12);
		break;
	}
	return out;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	std::vector<std::vector<Step> > plan(r.range(2, 8));
	// either all threads start with the same facility, or each with any
	bool same = r.chance(2, 3);
	size_t first = r.below(NTASKS), group = r.below(4);
	std::string what = cat("case ", c.index, ":");
	for (size_t i = 0; i < plan.size(); ++i) {
		int n = r.range(1, 4);
		what += cat(" thread ", i);
		for (int k = 0; k < n; ++k) {
			Step s;
			s.task = same && k == 0 ? first : group == 0 ? 19 + r.below(NTASKS - 19) : group == 1 ? 13 + r.below(6) : r.below(NTASKS);
			s.seed = r.next();
			static const int pauses[] = { 0, 0, 0, 1, 1, 5, 50 };
			s.pause = k ? r.pick(pauses) : 0;
			plan[i].push_back(s);
			what += cat(k ? "," : " ", TASKS[s.task].name);
		}
	}
	uint64_t doc_seed = r.next();
	describe(what);
	sample(what);
	int rep, err, st = 0;
	for (int attempt = 0; attempt < 2; ++attempt) {
		rep = memfd_create("report", 0); err = memfd_create("err", 0);
		if (rep < 0 || err < 0) harness_error("memfd");
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid < 0) harness_error("fork");
		if (!pid) {
			alarm(120);
			dup2(err, 2);
			try { child(rep, plan, doc_seed); }
			catch (const std::exception &e) { dprintf(rep, "HARNESS %s\n", e.what()); }
			_exit(0);
		}
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		if (attempt || !WIFSIGNALED(st) || WTERMSIG(st) != SIGALRM) break;
		close(rep); close(err);
	}
	std::string report = slurp(rep), text = slurp(err);
	if (c.replay) fprintf(stderr, "%s", text.c_str());
	if (report.find("HARNESS ") == 0) harness_error(report);
	if (text.find("WARNING: ThreadSanitizer: ") != std::string::npos) throw Fail(report_key(text), what + "\n" + text.substr(0, 6000));
	if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) throw Fail("stuck", what);
	if (text.find("ThreadSanitizer: out-of-memory") != std::string::npos || text.find("failed to allocate") != std::string::npos || text.find("ThreadSanitizer: CHECK failed") != std::string::npos) harness_error(text.substr(0, 500));
	if (WIFSIGNALED(st) || report.find("DONE\n") == std::string::npos) throw Fail(cat("ended:", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)), what + "\n" + text.substr(0, 4000));
	std::istringstream in(report);
	std::string line;
	std::set<std::string> seen;
	while (std::getline(in, line)) {
		if (line.compare(0, 5, "DIFF ") == 0) throw Fail("result-differs:" + line.substr(5, line.find(' ', 5) - 5), what + "\n" + line);
		if (line.compare(0, 7, "RAISED ") == 0) throw Fail("unexpected-exception:" + line.substr(7, line.find(' ', 7) - 7), what + "\n" + line);
		if (line.compare(0, 5, "OVER ") == 0) {
			size_t a = 0, b = 0;
			int f = 0;
			sscanf(line.c_str() + 5, "%zu %zu %d", &a, &b, &f);
			count("overlapping-pairs");
			if (a == b && f && seen.insert(TASKS[a].name).second) count(cat("first-use-", TASKS[a].name).c_str());
			if (a != b && seen.insert("x").second) count("different-facilities");
		}
		if (line.compare(0, 6, "ORDER ") == 0) nontrivial(hash(what + line.substr(6)));
	}
	count("threads", plan.size());
	if (seen.empty()) count("no-overlap");
}

int main(int argc, char **argv) {
	Opts o;
	o.leak = false;
	o.cpu_s = 300;
	dir = "";
	return vh::run(argc, argv, [](Ctx &c) {
		if (dir.empty()) {
			dir = scratch();
			std::ofstream((dir + "/one.json").c_str()) << SCHEMAS[1];
			std::ofstream((dir + "/two.json").c_str()) << "{\"$ref\": \"one.json\"}";
		}
		one(c);
	}, o);
}
