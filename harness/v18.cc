// V18: format guessing.
#include "io.h"
#include <Variant/GuessFormat.h>
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

static bool long_key(const MV &d) {
	if (d.k == K_LIST) { for (size_t i = 0; i < d.l.size(); ++i) if (long_key(d.l[i])) return true; }
	for (std::map<std::string, MV>::const_iterator i = d.m.begin(); i != d.m.end(); ++i) if (i->first.size() > 100 || long_key(i->second)) return true;
	return false;
}

// Characters JSON text holds as they are and YAML does not: see the probes.
static bool yaml_unsafe(const std::string &s) {
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char a = s[i], b = i + 1 < s.size() ? s[i + 1] : 0, d = i + 2 < s.size() ? s[i + 2] : 0;
		if (a == 0x7f || (a == 0xc2 && b >= 0x80 && b <= 0x9f)) return true;
		if (a == 0xe2 && b == 0x80 && (d == 0xa8 || d == 0xa9)) return true;
		if (a == 0xef && ((b == 0xbb && d == 0xbf) || (b == 0xbf && d >= 0xbe))) return true;
	}
	return false;
}
static void probe_text(const std::string &inner) {
	std::string text = "[\"a" + inner + "b\"]";
	MV want = from_variant(DeserializeJSON(text)), got;
	std::string why;
	try { got = from_variant(DeserializeGuess(text)); } catch (const std::exception &e) { why = e.what(); }
	VH_CHECK(why.empty(), "refused", printable(text), " ", why);
	VH_CHECK(diff(want, got).empty(), "differs", printable(text), " ", diff(want, got));
}
static void probe_del(Ctx &) { probe_text("\x7f"); }
static void probe_nel(Ctx &) { probe_text("\xc2\x85"); }

static void one(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(3)];
	MV doc;
	std::string text;
	do {
		doc = gen_doc(r, t, false);
		Variant p = gen_params(r, t);
		if (t == SERIALIZE_YAML) { if (!p.IsMap()) p = Variant::MapType; p["implicit_document_begin"] = false; }
		text = Serialize(to_variant(doc, r), t, p);
	} while (long_key(doc) || (t == SERIALIZE_JSON && yaml_unsafe(text)));
	std::string lead;
	if (t != SERIALIZE_XMLPLIST && r.coin()) {
		for (int n = r.chance(1, 10) ? r.range(1000, 10000) : r.range(1, 6); n > 0; --n) lead += t == SERIALIZE_JSON && r.coin() ? ' ' : '\n';
		count("leading-blanks");
	}
	text = lead + text;
	describe(cat(format_name(t), " ", show(doc, 3000), " | ", text));
	MV want = from_variant(Deserialize(text, t));
	VH_CHECK(diff(doc, want).empty(), "explicit", diff(doc, want));
	static const char *names[] = { "memory", "string", "c-string", "file-name", "file", "stringbuf", "streambuf", "stream", "input", "serialize-guess" };
	int source = r.below(10);
	Feed feed(text, r.next());
	FeedBuf fb(&feed);
	std::stringbuf sb(text);
	Variant v;
	FILE *f = 0;
	struct Close { FILE *&f; ~Close() { if (f) fclose(f); } } closer = { f };
	try {
		switch (source) {
		case 0: v = DeserializeGuess((const void *)text.data(), text.size()); break;
		case 1: v = DeserializeGuess(text); break;
		case 2: v = DeserializeGuess(text.c_str()); break;
		case 3: {
			static std::string name = cat(scratch(), "/v18-", getpid());
			{ std::ofstream o(name.c_str(), std::ios::binary); o << text; }
			v = DeserializeGuessFile(name.c_str());
			break;
		}
		case 4: f = feed_file(&feed); v = DeserializeGuessFile(f); break;
		case 5: v = DeserializeGuessFile(&sb); break;
		case 6: v = DeserializeGuessFile(&fb); break;
		case 9: v = Deserialize(text, SERIALIZE_GUESS); break;
		default: {
			static const unsigned sizes[] = { 1, 2, 7, 64, 1000, 8192 };
			shared_ptr<ParserInput> in;
			if (source == 7) in = shared_ptr<ParserInput>(new FeedStream(&feed, sizes[r.below(6)]));
			else in = shared_ptr<ParserInput>(new FeedInput(&feed));
			// guessing looks but takes nothing
			SerializeType g = GuessFormat(in.get());
			VH_CHECK((g == SERIALIZE_XMLPLIST) == (t == SERIALIZE_XMLPLIST), "guessed-format", "for ", format_name(t), " guessed ", format_name(g), " ", printable(text, 600));
			if (r.coin()) {
				std::string all;
				while (true) {
					unsigned len = 1;
					const char *p = (const char *)in->GetPtr(len);
					if (!p || !len) break;
					all.append(p, len);
					in->Release(len);
				}
				VH_CHECK(all == text, "guess-consumed", all.size(), " of ", text.size(), " bytes left");
				count("nothing-consumed");
				return;
			}
			Parser p = r.coin() ? CreateParserGuess(in) : CreateParser(in, g);
			v = ParseVariant(p);
		}
		}
	} catch (const Fail &) { throw; }
	catch (const std::exception &e) { throw Fail(cat("guess-refused-", format_name(t)), cat(names[source], " ", e.what(), " | ", printable(text, 2000))); }
	std::string d = diff(want, from_variant(v));
	VH_CHECK(d.empty(), cat("guess-differs-", format_name(t)), names[source], " ", d, " | ", printable(text, 2000));
	count(format_name(t));
	count(names[source]);
	nontrivial(mix(hash(text), source));
	sample(printable(text, 200));
}
int main(int argc, char **argv) {
	add_probe("json-delete-character", probe_del);
	add_probe("json-next-line", probe_nel);
	return vh::run(argc, argv, one);
}
