// V12: parsing does not depend on how the input bytes are delivered.
#include "io.h"
#include "named.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

enum Entry { SINGLE, GUESS, ALL };

struct Result {
	std::vector<MV> docs;
	bool raised;
	std::string why;
};
static std::string same(const Result &a, const Result &b) {
	if (a.raised != b.raised) return cat(a.raised ? "refused" : "read", " and ", b.raised ? "refused" : "read", " ", a.why, b.why);
	if (a.docs.size() != b.docs.size()) return cat(a.docs.size(), " and ", b.docs.size(), " documents");
	for (size_t i = 0; i < a.docs.size(); ++i) {
		EqOpt o;
		o.exact_int_kind = true;
		std::string d = diff(a.docs[i], b.docs[i], o);
		if (!d.empty()) return cat("document ", i, ": ", d);
	}
	return "";
}
static void drain(LoadAllIterator it, Result &res) {
	LoadAllIterator end;
	for (int n = 0; it != end && n < 50; ++n) {
		res.docs.push_back(from_variant(*it));
		++it;
	}
}
static void from_parser(Parser p, Entry e, Result &res) {
	if (e == ALL) drain(LoadAllIterator(p), res);
	else res.docs.push_back(from_variant(ParseVariant(p)));
}

static const int SOURCES = 10;
static const char *names[SOURCES] = { "memory", "string", "c-string", "file-name", "file", "chunked-file", "stringbuf", "chunked-streambuf", "short-read-stream", "custom-input" };

static Result deliver(int source, Entry e, SerializeType t, const std::string &text, uint64_t seed) {
	Result res;
	res.raised = false;
	Feed feed(text, seed);
	Named api(seed % 3 == 0);       // through the functions named after the format
	if (api.on && e != GUESS) count("named");
	FILE *f = 0;
	char *block = 0;
	try {
		switch (source) {
		case 0:
			block = (char *)malloc(text.size());
			memcpy(block, text.data(), text.size());
			if (e == ALL) drain(api.all(t, (const void *)block, text.size()), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuess((const void *)block, text.size()) : api.read(t, (const void *)block, text.size())));
			break;
		case 1:
			if (e == ALL) drain(api.all(t, text), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuess(text) : api.read(t, text)));
			break;
		case 2:
			block = (char *)malloc(text.size() + 1);
			memcpy(block, text.c_str(), text.size() + 1);
			if (e == ALL) drain(api.all(t, (const char *)block), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuess((const char *)block) : api.read(t, (const char *)block)));
			break;
		case 3: {
			static std::string name = cat(scratch(), "/v12-", getpid());
			{ std::ofstream o(name.c_str(), std::ios::binary); o << text; }
			if (e == ALL) drain(api.all_file(t, name.c_str()), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuessFile(name.c_str()) : api.read_file(t, name.c_str())));
			break;
		}
		case 4:
			if (text.empty()) f = fopen("/dev/null", "r");
			else f = fmemopen((void *)text.data(), text.size(), "r");
			if (!f) harness_error("fmemopen");
			if (e == ALL) drain(api.all_file(t, f), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuessFile(f) : api.read_file(t, f)));
			break;
		case 5:
			f = feed_file(&feed);
			if (e == ALL) drain(api.all_file(t, f), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuessFile(f) : api.read_file(t, f)));
			break;
		case 6: {
			std::stringbuf sb(text);
			if (e == ALL) drain(api.all_file(t, &sb), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuessFile(&sb) : api.read_file(t, &sb)));
			break;
		}
		case 7: {
			FeedBuf sb(&feed);
			if (e == ALL) drain(api.all_file(t, &sb), res);
			else res.docs.push_back(from_variant(e == GUESS ? DeserializeGuessFile(&sb) : api.read_file(t, &sb)));
			break;
		}
		case 8: {
			static const unsigned sizes[] = { 1, 2, 7, 64, 1000, 8192 };
			shared_ptr<ParserInput> in(new FeedStream(&feed, sizes[feed.rng.below(6)]));
			from_parser(e == GUESS ? CreateParserGuess(in) : CreateParser(in, t), e, res);
			break;
		}
		default: {
			shared_ptr<ParserInput> in(new FeedInput(&feed));
			from_parser(e == GUESS ? CreateParserGuess(in) : CreateParser(in, t), e, res);
		}
		}
	} catch (const Fail &) {
		if (f) fclose(f);
		free(block);
		throw;
	} catch (const std::exception &x) {
		res.raised = true;
		res.why = cat("(", x.what(), ")");
	}
	if (f) fclose(f);
	free(block);
	return res;
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	std::string text = gen_text(r, t);
	const char *kind = "valid";
	if (t != SERIALIZE_BUNDLEHDR && r.chance(1, 2500)) { Gen g; g.xml_safe = true; text = Serialize(to_variant(gen_large(r, g, 200)), t); count("large"); }
	if (r.chance(1, 3)) {
		text = corrupt(r, text);
		kind = "corrupted";
	} else if (r.chance(1, 4)) {
		for (int n = r.range(1, 3); n > 0; --n) text += (r.coin() ? "\n" : "") + gen_text(r, t);
		kind = "several";
	} else if (r.chance(1, 30)) {
		static const char *blank[] = { "", " ", "\n\n", " \t ", "\n", "  \r\n" };
		text = blank[r.below(6)];
		if (r.chance(1, 3)) text = std::string(r.range(1, 9000), ' ');
		kind = "blank";
	}
	if (kind[0] == 'v' && r.chance(1, 6)) text = std::string(r.below(5), ' ') + text;
	Entry e = r.chance(1, 4) ? GUESS : r.chance(1, 3) ? ALL : SINGLE;
	describe(cat(format_name(t), " entry ", (int)e, " ", printable(text, 6000)));
	uint64_t seed = r.next();
	Result ref = deliver(0, e, t, text, seed);
	count(kind);
	count(e == GUESS ? "guessed" : e == ALL ? "all-documents" : "single");
	count(ref.raised ? "refused" : "read");
	for (int i = 1; i < SOURCES; ++i) {
		if (i == 2 && text.find('\0') != std::string::npos) continue;
		if (i == 3 && !r.chance(1, 4)) continue;
		int times = i == 5 || i >= 7 ? 2 : 1;
		for (int k = 0; k < times; ++k) {
			uint64_t s = seed + 100 * k + i;
			Result got = deliver(i, e, t, text, s);
			std::string d = same(ref, got);
			VH_CHECK(d.empty(), cat("source-", names[i], "-", format_name(t), e == GUESS ? "-guess" : e == ALL ? "-all" : ""), "memory and ", names[i], ": ", d, " | ", format_name(t), " text of ", text.size(), " bytes ", printable(text, 1500));
			count(names[i]);
		}
	}
	if (text.size() > 4096) count("longer-than-4096");
	if (text.size() > 8192) count("longer-than-8192");
	nontrivial(mix(hash(text), e));
	if (text.size() < 150) sample(cat(format_name(t), e == GUESS ? " guessed " : e == ALL ? " all " : " single ", ref.raised ? "refused " : "read ", printable(text)));
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
