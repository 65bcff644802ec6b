// V16: header and payload documents, alone and back to back.
#include "io.h"
#include <Variant/Payload.h>
#include "named.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

struct Step { std::string key; size_t index; bool list; };
static std::vector<Step> steps(const std::string &path) {
	std::vector<Step> out;
	for (size_t i = 0; i < path.size();) {
		Step s = { "", 0, path[i] == '[' };
		size_t e;
		if (s.list) { e = path.find(']', i); s.index = strtoul(path.c_str() + i + 1, 0, 10); ++e; }
		else { e = path.find_first_of("/[", i); if (e == std::string::npos) e = path.size(); s.key = path.substr(i, e - i); }
		out.push_back(s);
		i = e < path.size() && path[e] == '/' ? e + 1 : e;
	}
	return out;
}
static MV *at(MV &d, const std::string &path) {
	MV *v = &d;
	std::vector<Step> p = steps(path);
	for (size_t i = 0; i < p.size(); ++i) {
		if (v->k == K_NULL) *v = p[i].list ? MV::List() : MV::Map();
		if (!p[i].list) { v = &v->m[p[i].key]; continue; }
		if (v->l.size() <= p[i].index) v->l.resize(p[i].index + 1);
		v = &v->l[p[i].index];
	}
	return v;
}
// Things beside the place of a path, and perhaps nothing on the way to it.
static void surround(Rng &r, MV &d, const std::string &path) {
	MV *v = &d;
	std::vector<Step> p = steps(path);
	for (size_t i = 0; i + 1 < p.size(); ++i) {
		if (p[i].list) {
			if (v->l.size() <= p[i].index) return;
			v = &v->l[p[i].index];
		} else {
			if (!v->m.count(p[i].key) && r.chance(1, 3)) return;
			v = &v->m[p[i].key];
		}
		if (v->k != K_NULL) continue;
		if (r.chance(1, 4)) { count("null-on-the-way"); return; }
		bool list = p[i + 1].list, deeper = i + 2 < p.size();
		*v = list ? MV::List() : MV::Map();
		for (int n = r.below(4); n > 0; --n) {
			MV x = deeper && r.coin() ? MV::Null() : MV::Int(r.below(100));
			if (deeper && x.k == K_INT) { MV m = p[i + 2].list ? MV::List() : MV::Map(); if (p[i + 2].list) m.l.push_back(x); else m.m["k"] = x; x = m; }
			if (list) v->l.push_back(x);
			else v->m[cat("k", n)] = x;
		}
	}
}
// Nothing is where a path leads.
static void vacate(MV &d, const std::string &path) {
	MV *v = &d;
	std::vector<Step> p = steps(path);
	for (size_t i = 0; i < p.size(); ++i) {
		bool last = i + 1 == p.size();
		if (p[i].list) {
			if (v->l.size() <= p[i].index) return;
			if (last) v->l.resize(p[i].index);
			else v = &v->l[p[i].index];
		} else {
			if (!v->m.count(p[i].key)) return;
			if (last) v->m.erase(p[i].key);
			else v = &v->m[p[i].key];
		}
	}
}
static std::string payload_bytes(Rng &r) {
	switch (r.below(8)) {
	case 0: return "";
	case 1: return std::string(r.range(1, 70), '\0');
	case 2: return std::string(r.range(1, 70), '\n');
	case 3: return "{\"a\": 1}\n--- x\n...\n</plist>\n";
	case 4: return gen_bytes(r, r.chance(1, 20) ? 60000 : 9000, false);
	default: return gen_bytes(r, 100, false);
	}
}

struct Item {
	MV header, want, want2;      // want2: as read when there is nothing in the payload
	std::string payload;
	Variant params;
	Variant doc;
	std::string lpath, dpath;
	int mode;                    // 0 attached, 1 none, 2 ignored, 3 ignored with a given length, 4 ignored with the length in the header
};

static Item item(Rng &r, SerializeType t) {
	Item x;
	bool flat = t == SERIALIZE_BUNDLEHDR;
	do x.header = gen_doc(r, t); while (x.header.k != K_MAP);
	x.header.m.erase("payload");
	x.header.m.erase("payload.length");
	x.header.m.erase("payload.data");
	x.params = gen_params(r, t);
	if (!x.params.IsMap()) x.params = Variant::MapType;
	x.dpath = flat ? "payload.data" : "payload/data";
	x.lpath = flat ? "payload.length" : "payload/length";
	if (r.coin()) {
		static const char *deep[] = { "zd", "zp/data", "zp/x/data", "za/b/c/d", "payload/data", "zd[1]", "zd[0]/data", "zp/w[2]/data", "zz[0]", "zz[1]/data", "zd[1][0]" };
		static const char *deepl[] = { "zl", "zp/length", "zp/x/length", "zq/b/c/d", "payload/length", "zl[2]", "zl[0]/n", "zp/y[1]/n", "zz[2]", "zz[1]/length", "zl[0][1]" };
		static const char *flats[] = { "zd", "z.data", "payload.data" };
		static const char *flatl[] = { "zl", "z.length", "payload.length" };
		x.dpath = flat ? flats[r.below(3)] : deep[r.below(11)];
		x.lpath = flat ? flatl[r.below(3)] : deepl[r.below(11)];
		if (x.dpath.substr(0, 3) == "zz[" && x.lpath.substr(0, 3) == "zz[" && (x.dpath == "zz[0]") != (x.lpath == "zz[2]")) x.lpath = "zl[2]";
		x.params["data_path"] = x.dpath;
		x.params["length_path"] = x.lpath;
	}
	for (std::map<std::string, MV>::iterator i = x.header.m.begin(); i != x.header.m.end();) {
		if (i->first[0] == 'z') x.header.m.erase(i++);
		else ++i;
	}
	x.payload = payload_bytes(r);
	if (!flat) {
		surround(r, x.header, x.lpath);
		surround(r, x.header, x.dpath);
		vacate(x.header, x.dpath);
		if (x.lpath.find('[') != std::string::npos) count("length-in-list");
		if (x.dpath.find('[') != std::string::npos) count("data-in-list");
	}
	x.mode = r.chance(1, 2) ? 0 : r.range(1, 4);
	if (x.mode == 1) x.payload.clear();
	MV doc = x.header;
	if (x.mode == 0 || x.mode == 2) *at(doc, x.dpath) = MV::Blob(x.payload);
	if (r.coin()) *at(doc, x.lpath) = MV::Uint(r.below(100000));   // an old value does not count
	if (x.mode >= 2) x.params["ignore_payload"] = true;
	if (x.mode == 3) x.params["payload_length"] = (unsigned)x.payload.size();
	if (x.mode == 4) *at(doc, x.lpath) = MV::Uint(x.payload.size());
	if (x.mode == 1) {
		*at(doc, x.lpath) = MV::Uint(r.below(1000));
		if (r.coin()) x.params["ignore_payload"] = false;
	}
	x.doc = to_variant(doc, r);
	x.want = doc;
	if (flat) {
		// what plain reading makes of the header
		MV h = from_variant(Deserialize(Serialize(to_variant(x.header), t), t));
		if (h.k == K_MAP) x.want = h;
	}
	*at(x.want, x.lpath) = MV::Uint(x.payload.size());
	x.want2 = x.want;
	*at(x.want, x.dpath) = MV::Blob(x.payload);
	if (x.payload.empty()) {
		// the place of the data is left out
		MV *p = &x.want2;
		std::vector<Step> way = steps(x.dpath);
		for (size_t i = 0; i < way.size(); ++i) {
			bool last = i + 1 == way.size();
			if (way[i].list) {
				if (p->l.size() <= way[i].index) break;
				p = &p->l[way[i].index];
				if (last) *p = MV::Null();
			} else if (last) p->m.erase(way[i].key);
			else if (p->m.count(way[i].key)) p = &p->m[way[i].key];
			else break;
		}
	}
	return x;
}

static std::string mode_name(int m) { static const char *n[] = { "attached", "no-payload", "ignored", "given-length", "length-in-header" }; return n[m]; }

// A length that cannot be stored is reported, otherwise the payload would be lost.
static void unplaced(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(3)];
	MV doc;
	do doc = gen_doc(r, t); while (doc.k != K_MAP);
	static const char *paths[] = { "zl/length", "zp/x/length", "zl[0]/n", "zl[1]", "zq/b/c/d" };
	std::string path = paths[r.below(5)];
	doc.m.erase("zl"); doc.m.erase("zp"); doc.m.erase("zq");
	std::vector<Step> p = steps(path);
	MV *v = &doc;
	for (size_t n = 1 + r.below(p.size() - 1), i = 0; i < n; ++i) {
		if (v->k == K_NULL) *v = p[i].list ? MV::List() : MV::Map();
		if (p[i].list) { v->l.resize(p[i].index + 1); v = &v->l[p[i].index]; }
		else v = &v->m[p[i].key];
	}
	switch (r.below(4)) {
	case 0: *v = MV::Int(r.below(100)); break;
	case 1: *v = MV::Str("text"); break;
	case 2: *v = MV::Bool(r.coin()); break;
	default: *v = MV::Float(0.5 + r.below(9));
	}
	std::string bytes = "p" + gen_bytes(r, 60, false);
	doc.m["zd"] = MV::Blob(bytes);
	Variant params = gen_params(r, t);
	if (!params.IsMap()) params = Variant::MapType;
	params["data_path"] = "zd";
	params["length_path"] = path;
	std::string what = cat(format_name(t), " length ", path, " ", show(doc, 2000));
	describe(what);
	std::string out;
	try { out = SerializeWithPayload(to_variant(doc, r), t, params); }
	catch (const Fail &) { throw; }
	catch (const std::exception &) { count("unplaced-reported"); nontrivial(hash(what)); return; }
	MV got;
	try { got = from_variant(DeserializeWithPayload(out, t, params)); }
	catch (const std::exception &e) { throw Fail("unplaced-unreadable", cat(e.what(), " | ", what)); }
	VH_CHECK(got.m.count("zd") && got.m["zd"].k == K_BLOB && got.m["zd"].s == bytes, "payload-lost", what, " gave ", show(got, 1000));
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	if (r.chance(1, 20)) return unplaced(c);
	SerializeType t = FORMATS[r.below(4)];
	std::vector<Item> items;
	for (int n = r.chance(1, 3) ? r.range(2, 6) : 1; n > 0; --n) items.push_back(item(r, t));
	std::string text;
	for (size_t i = 0; i < items.size(); ++i) text += cat(" [", mode_name(items[i].mode), " data ", items[i].dpath, " length ", items[i].lpath, " ", items[i].payload.size(), " bytes, header ", show(items[i].header, 700), " params ", SerializeJSON(items[i].params), "]");
	describe(cat(format_name(t), text));

	// write them all to one destination
	std::string out;
	std::vector<size_t> starts, ends;
	{
		Sink s(r.next());
		s.partial = r.coin();
		int dest = r.below(4);
		std::stringbuf sb;
		SinkBuf pb(&s);
		shared_ptr<EmitterOutput> o;
		FILE *f = 0;
		if (dest == 0) o = shared_ptr<EmitterOutput>(new SinkOut(&s));
		else if (dest == 1) o = CreateEmitterOutput(&sb);
		else if (dest == 2) o = CreateEmitterOutput(&pb);
		else { f = sink_file(&s); o = CreateEmitterOutput(f); }
		try {
			for (size_t i = 0; i < items.size(); ++i) {
				SerializeWithPayload(o, items[i].doc, t, items[i].params);
				if (f) fflush(f);
				starts.push_back((dest == 1 ? sb.str() : s.data).size());
				if (items[i].mode >= 2) {
					// the payload follows by other means
					unsigned done = 0;
					while (done < items[i].payload.size()) done += o->Write(items[i].payload.data() + done, items[i].payload.size() - done);
					o->Flush();
				}
				if (f) fflush(f);
				ends.push_back((dest == 1 ? sb.str() : s.data).size());
			}
			o.reset();
		} catch (...) { if (f) fclose(f); throw; }
		if (f) fclose(f);
		out = dest == 1 ? sb.str() : s.data;
		static const char *names[] = { "to-output", "to-stringbuf", "to-partial-streambuf", "to-file" };
		count(names[dest]);
	}
	for (size_t i = 0; i < items.size(); ++i) {
		const Item &x = items[i];
		size_t data = ends[i] - x.payload.size();
		VH_CHECK(out.compare(data, x.payload.size(), x.payload) == 0, "payload-not-raw", "document ", i, text);
		VH_CHECK(data > 0 && out[data - 1] == '\0', "no-separator", "document ", i, " ", printable(out.substr(data > 60 ? data - 60 : 0, 200), 900), text);
		count(mode_name(x.mode).c_str());
	}

	// and read them from one source
	size_t cut = (size_t)-1;
	if (r.chance(1, 5) && !items.back().payload.empty()) { cut = ends.back() - 1 - r.below(items.back().payload.size()); out.resize(cut); }
	int source = r.below(7);
	Feed feed(out, r.next());
	FeedBuf fb(&feed);
	std::stringbuf sb(out);
	FILE *f = 0;
	shared_ptr<ParserInput> in;
	bool safe = true;
	static const char *names[] = { "from-memory", "from-file", "from-stringbuf", "from-streambuf", "from-stream", "from-input", "from-memory-unsafe" };
	static const unsigned sizes[] = { 1, 2, 7, 64, 1000, 8192 };
	char *block = (char *)malloc(out.size() + 1);
	memcpy(block, out.data(), out.size());
	switch (source) {
	case 0: in = CreateParserInput((const void *)block, out.size()); break;
	case 1: f = feed_file(&feed); in = CreateParserInputFile(f); break;
	case 2: in = CreateParserInputFile(&sb); break;
	case 3: in = CreateParserInputFile(&fb); break;
	case 4: in = shared_ptr<ParserInput>(new FeedStream(&feed, sizes[r.below(6)])); break;
	case 5: in = shared_ptr<ParserInput>(new FeedInput(&feed)); break;
	default: in = CreateParserInput((const void *)block, out.size()); safe = false;
	}
	struct Close { FILE *f; char *b; ~Close() { if (f) fclose(f); free(b); } } closer = { f, block };
	{
		std::vector<Variant> got;
		for (size_t i = 0; i < items.size(); ++i) {
			const Item &x = items[i];
			Variant v;
			bool raised = false;
			std::string why;
			try { v = DeserializeWithPayload(in, t, x.params, safe); }
			catch (const std::exception &e) { raised = true; why = e.what(); }
			bool last = i + 1 == items.size();
			if (last && cut != (size_t)-1) {
				VH_CHECK(raised, cat("cut-accepted-", format_name(t)), "cut at ", cut, " of ", ends.back(), text, " gave ", show(from_variant(v)));
				count("cut-refused");
				break;
			}
			VH_CHECK(!raised, cat("refused-", format_name(t)), "document ", i, " ", names[source], " ", why, text);
			got.push_back(v);
			MV g = from_variant(v);
			std::string d = diff(x.want, g);
			if (!d.empty() && x.payload.empty()) d = diff(x.want2, g);
			VH_CHECK(d.empty(), cat("read-back-", format_name(t)), "document ", i, " ", names[source], " ", d, text, " gave ", show(g));
		}
		// reading later documents leaves the earlier ones alone
		for (size_t i = 0; i < got.size(); ++i) {
			MV g = from_variant(got[i]);
			VH_CHECK(diff(items[i].want, g).empty() || (items[i].payload.empty() && diff(items[i].want2, g).empty()), "overwritten", "document ", i, text);
		}
		if (cut == (size_t)-1) {
			unsigned len = 1;
			in->GetPtr(len);
			VH_CHECK(len == 0, "left-over", len, " bytes remain", text);
		}
		in.reset();
	}
	// the one-call forms
	if (items.size() == 1 && cut == (size_t)-1 && items[0].mode <= 1) {
		Named api(r.coin() && t == SERIALIZE_BUNDLEHDR && (items[0].params.IsNull() || items[0].params.Empty()));
		std::string s = api.write_payload(t, items[0].params, items[0].doc);
		VH_CHECK(s == out, "string-form", s.size(), " and ", out.size(), text);
		MV g = from_variant(api.read_payload(t, items[0].params, s));
		VH_CHECK(diff(items[0].want, g).empty() || diff(items[0].want2, g).empty(), "string-form-read", text);
		if (r.chance(1, 4)) {
			static std::string name = cat(scratch(), "/v16-", getpid());
			api.write_payload(t, items[0].params, items[0].doc, name);
			MV g = from_variant(api.read_payload_file(t, items[0].params, name.c_str()));
			VH_CHECK(diff(items[0].want, g).empty() || diff(items[0].want2, g).empty(), "file-form-read", text);
			count("file-form");
			FILE *w = fopen(name.c_str(), "wb");
			api.write_payload(t, items[0].params, items[0].doc, w);
			fclose(w);
			w = fopen(name.c_str(), "rb");
			struct Shut { FILE *f; ~Shut() { fclose(f); } } shut = { w };
			g = from_variant(api.read_payload_file(t, items[0].params, w));
			VH_CHECK(diff(items[0].want, g).empty() || diff(items[0].want2, g).empty(), "stream-form-read", text);
			count("stream-form");
		}
		count("string-form");
		// a block of memory as destination and as source
		std::vector<char> room(s.size() + r.below(3));
		unsigned n = api.write_payload(t, items[0].params, items[0].doc, (void *)room.data(), (unsigned)room.size());
		VH_CHECK(n == s.size() && !s.compare(0, n, room.data(), n), "memory-form", n, " and ", s.size(), text);
		bool copied = r.coin();
		Variant back = api.read_payload(t, items[0].params, room.data(), n, copied);
		if (copied) std::fill(room.begin(), room.end(), 'x');
		g = from_variant(back);
		VH_CHECK(diff(items[0].want, g).empty() || diff(items[0].want2, g).empty(), "memory-form-read", text);
		std::stringbuf tb;
		api.write_payload(t, items[0].params, items[0].doc, (std::streambuf *)&tb);
		VH_CHECK(tb.str() == s, "streambuf-form", tb.str().size(), " and ", s.size(), text);
		g = from_variant(api.read_payload_file(t, items[0].params, (std::streambuf *)&tb));
		VH_CHECK(diff(items[0].want, g).empty() || diff(items[0].want2, g).empty(), "streambuf-form-read", text);
		count(api.on ? "named" : "general");
	}
	count(names[source]);
	count(format_name(t));
	if (items.size() > 1) count("back-to-back");
	nontrivial(hash(out));
	sample(printable(text, 300));
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
