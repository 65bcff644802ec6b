// V14: I/O failures are reported, never swallowed, hung on or fatal.
#include "io.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

static void write_failures(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	Variant params = gen_params(r, t), v = to_variant(doc, r);
	std::string want = Serialize(v, t, params);
	Sink s(r.next());
	s.partial = r.coin();
	s.limit = r.chance(1, 4) ? want.size() - 1 : r.chance(1, 6) ? 0 : r.below(want.size());
	static const char *kinds[] = { "file", "streambuf-short", "streambuf-throws", "streambuf-sync", "output-throws", "dev-full", "dev-full-file", "unwritable-name", "memory-small", "destroyed-unclosed" };
	int kind = r.below(10);
	describe(cat(format_name(t), " ", kinds[kind], " limit ", s.limit, " of ", want.size(), " how ", show(doc, 4000), " params ", params.IsMap() ? SerializeJSON(params) : "none"));
	bool raised = false, judged = true;
	std::string why;
	FILE *f = 0;
	std::vector<char> block;
	try {
		switch (kind) {
		case 0: f = sink_file(&s); Serialize(f, v, t, params); break;
		case 1: { SinkBuf sb(&s); Serialize(&sb, v, t, params); break; }
		case 2: { s.how = r.coin() ? Sink::THROW_RUNTIME : Sink::THROW_LENGTH; SinkBuf sb(&s); Serialize(&sb, v, t, params); break; }
		case 3: { s.how = Sink::SYNC_ONLY; SinkBuf sb(&s); Serialize(&sb, v, t, params); break; }
		case 4: {
			s.how = r.coin() ? Sink::THROW_RUNTIME : r.coin() ? Sink::THROW_LENGTH : Sink::THROW_ALLOC;
			Emitter e = CreateEmitter(shared_ptr<EmitterOutput>(new SinkOut(&s)), t, params);
			e << v;
			e.Close();
			break;
		}
		case 5: Serialize(std::string("/dev/full"), v, t, params); break;
		case 6: f = fopen("/dev/full", "w"); if (!f) harness_error("/dev/full"); if (r.coin()) setvbuf(f, 0, _IONBF, 0); Serialize(f, v, t, params); break;
		case 7: Serialize(scratch() + "/none/such", v, t, params); break;
		case 8: block.resize(s.limit + 1); Serialize(&block[0], (unsigned)s.limit, v, t, params); break;
		default: {
			// the emitter is destroyed while the destination fails: nothing to report to, but the process goes on
			judged = false;
			s.how = r.coin() ? Sink::SHORT : r.coin() ? Sink::THROW_RUNTIME : Sink::THROW_LENGTH;
			if (r.coin()) {
				SinkBuf sb(&s);
				Emitter e = CreateEmitter(CreateEmitterOutput(&sb), t, params);
				e << v;
			} else {
				f = sink_file(&s);
				s.how = Sink::SHORT;
				Emitter e = CreateEmitter(CreateEmitterOutput(f), t, params);
				e << v;
			}
		}
		}
	} catch (const std::exception &e) { raised = true; why = e.what(); }
	if (f) fclose(f);
	VH_CHECK(raised || !judged, cat("write-failure-swallowed-", kinds[kind], "-", format_name(t)), "failed at ", s.limit, " of ", want.size(), ", destination failed ", s.failures, " times | ", show(doc, 800));
	count(cat("write-", kinds[kind]).c_str());
	// the library still works
	VH_CHECK(Serialize(v, t, params) == want, "after-write-failure", show(doc, 800));
	nontrivial(mix(mix(hash(want), s.limit), kind));
	if (want.size() < 100) sample(cat(format_name(t), " ", kinds[kind], " at byte ", s.limit, " of ", want.size(), raised ? " raised: " : " destroyed", why));
}

static void read_failures(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	std::string text = Serialize(to_variant(doc, r), t, gen_params(r, t));
	MV want = from_variant(Deserialize(text, t));
	Feed feed(text, r.next());
	feed.fail_at = r.chance(1, 4) ? text.size() - 1 - r.below(std::min<size_t>(text.size(), 4)) : r.chance(1, 6) ? 0 : r.below(text.size() + 1);
	static const char *kinds[] = { "file", "streambuf", "stream", "input", "directory", "missing" };
	int kind = r.chance(1, 20) ? r.range(4, 5) : r.below(4);
	bool guess = t != SERIALIZE_BUNDLEHDR && r.chance(1, 5);
	describe(cat(format_name(t), " ", kinds[kind], guess ? " guess" : "", " fails at ", feed.fail_at, " of ", text.size(), " chunk ", feed.max, " | ", printable(text, 4000)));
	bool raised = false;
	MV got;
	std::string why;
	FILE *f = 0;
	try {
		Variant g;
		switch (kind) {
		case 0: f = feed_file(&feed); g = guess ? DeserializeGuessFile(f) : DeserializeFile(f, t); break;
		case 1: { FeedBuf sb(&feed); g = guess ? DeserializeGuessFile(&sb) : DeserializeFile(&sb, t); break; }
		case 2: case 3: {
			shared_ptr<ParserInput> in;
			if (kind == 2) in.reset(new FeedStream(&feed, r.coin() ? 8192 : 16));
			else in.reset(new FeedInput(&feed));
			Parser p = guess ? CreateParserGuess(in) : CreateParser(in, t);
			g = ParseVariant(p);
			break;
		}
		case 4: g = guess ? DeserializeGuessFile(scratch().c_str()) : DeserializeFile(scratch().c_str(), t); break;
		default: g = guess ? DeserializeGuessFile((scratch() + "/none").c_str()) : DeserializeFile((scratch() + "/none").c_str(), t);
		}
		got = from_variant(g);
	} catch (const Fail &) { if (f) fclose(f); throw; }
	catch (const std::exception &e) { raised = true; why = e.what(); }
	if (f) fclose(f);
	if (!raised) {
		// everything may already have been read when the failure would have come
		VH_CHECK(kind < 4, cat("read-", kinds[kind], "-accepted"), show(got));
		std::string d = guess && t == SERIALIZE_JSON ? "" : diff(want, got);
		if (guess && t == SERIALIZE_JSON) { try { d = diff(from_variant(DeserializeGuess(text)), got); } catch (const std::exception &) { d = "guessing refuses the whole text"; } }
		VH_CHECK(d.empty(), cat("read-failure-swallowed-", kinds[kind], "-", format_name(t)), d, " | failed at ", feed.fail_at, " of ", text.size(), feed.failed ? ", the source did report it" : "", " | ", printable(text, 1200));
		count("complete-before-failure");
	} else {
		count(cat("read-", kinds[kind]).c_str());
		count("read-raised");
	}
	VH_CHECK(diff(want, from_variant(Deserialize(text, t))).empty(), "after-read-failure", printable(text, 800));
	nontrivial(mix(mix(hash(text), feed.fail_at), kind));
	if (text.size() < 100) sample(cat(format_name(t), " ", kinds[kind], " read fails at byte ", feed.fail_at, " of ", text.size(), raised ? " raised: " : " complete", why));
}

static void one(Ctx &c) {
	if (c.rng.coin()) write_failures(c);
	else read_failures(c);
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
