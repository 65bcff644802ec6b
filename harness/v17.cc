// V17: streams of several documents.
#include "io.h"
#include <sstream>
using namespace vh;
using namespace libvariant;

static std::string list(const std::vector<MV> &d) { std::string s; for (size_t i = 0; i < d.size(); ++i) s += cat(i ? " ; " : "", show(d[i], 500)); return s; }

// The documents as one YAML stream.
static std::string stream(Rng &r, const std::vector<MV> &docs, int how) {
	std::string s;
	if (how == 0) {
		// each written by itself
		for (size_t i = 0; i < docs.size(); ++i) {
			Variant p = gen_params(r, SERIALIZE_YAML);
			if (!p.IsMap()) p = Variant::MapType;
			p["implicit_document_begin"] = false;
			p["implicit_document_end"] = r.coin();
			s += Serialize(to_variant(docs[i], r), SERIALIZE_YAML, p);
			if (!s.empty() && s[s.size() - 1] != '\n') s += '\n';
			if (r.chance(1, 4)) s += "# between\n\n";
		}
		return s;
	}
	// one emitter for all
	std::stringbuf sb;
	{
		Variant p = Variant::MapType;
		if (r.coin()) p["implicit_document_end"] = r.coin();
		Emitter e = CreateEmitter(CreateEmitterOutput(&sb), SERIALIZE_YAML, p);
		for (size_t i = 0; i < docs.size(); ++i) {
			e.BeginDocument();
			e << to_variant(docs[i], r);
			e.EndDocument();
		}
		e.Close();
	}
	return sb.str();
}

struct Source {
	Source(Rng &r, const std::string &t) : text(t), feed(t, r.next()), fb(&feed), sb(t), f(0), kind(r.below(6)) {
		static const unsigned sizes[] = { 1, 2, 7, 64, 1000, 8192 };
		switch (kind) {
		case 0: in = CreateParserInput((const void *)text.data(), text.size()); break;
		case 1: f = feed_file(&feed); in = CreateParserInputFile(f); break;
		case 2: in = CreateParserInputFile(&sb); break;
		case 3: in = CreateParserInputFile(&fb); break;
		case 4: in = shared_ptr<ParserInput>(new FeedStream(&feed, sizes[r.below(6)])); break;
		default: in = shared_ptr<ParserInput>(new FeedInput(&feed));
		}
	}
	~Source() { in.reset(); if (f) fclose(f); }
	std::string text;
	Feed feed;
	FeedBuf fb;
	std::stringbuf sb;
	FILE *f;
	int kind;
	shared_ptr<ParserInput> in;
};

static void check(const MV &want, const Variant &got, size_t i, const char *key, const std::string &text) {
	std::string d = diff(want, from_variant(got));
	VH_CHECK(d.empty(), key, "document ", i, ": ", d, " | ", printable(text, 1500));
}

static void yaml(Ctx &c) {
	Rng &r = c.rng;
	std::vector<MV> docs;
	for (int n = r.chance(1, 10) ? 0 : r.chance(1, 500) ? r.range(100, 1000) : r.range(1, 7); n > 0; --n) {
		switch (r.below(6)) {
		case 0: docs.push_back(MV::Null()); count("null-document"); break;
		case 1: { Gen g; docs.push_back(gen_scalar(r, g)); count("scalar-document"); break; }
		case 2: docs.push_back(r.coin() ? MV::List() : MV::Map()); count("empty-container"); break;
		default: docs.push_back(gen_doc(r, SERIALIZE_YAML));
		}
	}
	int how = r.below(2);
	std::string text;
	size_t bad = (size_t)-1;
	if (!docs.empty() && r.chance(1, 4)) {
		// an error inside one document
		bad = r.below(docs.size());
		std::vector<MV> before(docs.begin(), docs.begin() + bad), after(docs.begin() + bad, docs.end());
		static const char *broken[] = { "--- [1, 2}\n", "--- {a: 1]\n", "--- \"abc\n--- x\n", "--- [a, b\n--- 1\n", "--- *nobody\n", "--- {a: [1, 2}}\n", "--- a: b: c\n", "--- 'x\n... \n" };
		text = stream(r, before, 0) + broken[r.below(8)] + stream(r, after, 0);
	} else text = stream(r, docs, how);
	describe(cat(list(docs), " | ", text));
	Source src(r, text);
	int pattern = r.below(4);
	size_t delivered = 0;
	bool raised = false;
	std::string why;
	std::vector<Variant> kept;
	try {
		Parser p = CreateParser(src.in, SERIALIZE_YAML);
		LoadAllIterator it(p), end;
		if (pattern == 0) {
			for (; it != end; ++it) {
				VH_CHECK(delivered < docs.size(), "too-many", delivered + 1, " documents | ", printable(text, 1500));
				check(docs[delivered], *it, delivered, "document", text);
				kept.push_back(*it);
				++delivered;
			}
		} else if (pattern == 1) {
			// a copy runs ahead, the original follows over the same documents
			LoadAllIterator a = it;
			while (a != end) {
				VH_CHECK(delivered < docs.size(), "too-many", delivered + 1, " documents | ", printable(text, 1500));
				check(docs[delivered], *a, delivered, "document", text);
				kept.push_back(*a);
				++delivered;
				LoadAllIterator before = a;
				VH_CHECK(before == a, "copy-unequal", "");
				LoadAllIterator old = a++;
				VH_CHECK(old == before && old != a, "post-increment", "document ", delivered);
				check(docs[delivered - 1], *old, delivered - 1, "old-copy", text);
			}
			size_t i = 0;
			for (; it != end; ++it, ++i) check(docs[i], *it, i, "second-pass", text);
			VH_CHECK(i == delivered, "second-pass-count", i, " and ", delivered, " | ", printable(text, 1500));
			count("second-pass");
		} else if (pattern == 2) {
			// two copies take turns
			LoadAllIterator a = it, b = it;
			size_t i = 0, j = 0;
			while (a != end || b != end) {
				LoadAllIterator &x = (r.coin() && a != end) || b == end ? a : b;
				size_t &k = &x == &a ? i : j;
				VH_CHECK(k < docs.size(), "too-many", k + 1, " documents | ", printable(text, 1500));
				check(docs[k], *x, k, "turns", text);
				VH_CHECK((i == j) == (a == b), "equality", i, " and ", j);
				if (k == kept.size()) kept.push_back(*x);
				if (k >= delivered) delivered = k + 1;
				++x;
				++k;
			}
			VH_CHECK(i == j, "turns-count", i, " and ", j);
			count("turns");
		} else {
			for (; it != end; ++it) {
				VH_CHECK(delivered < docs.size(), "too-many", delivered + 1, " documents | ", printable(text, 1500));
				check(docs[delivered], it.Get(), delivered, "document", text);
				VH_CHECK(it->GetType() == it.Get().GetType(), "arrow", "");
				kept.push_back(*it);
				++delivered;
			}
			++it;
			VH_CHECK(it == end, "past-the-end", "the end moved");
			bool r2 = false;
			try { *it; } catch (const std::exception &) { r2 = true; }
			VH_CHECK(r2, "end-value", "the end has a value");
			count("past-the-end");
		}
	} catch (const Fail &) { throw; }
	catch (const std::exception &e) { raised = true; why = e.what(); }
	if (bad != (size_t)-1) {
		VH_CHECK(raised, "error-missed", "error in document ", bad, " of ", printable(text, 1500));
		VH_CHECK(delivered == bad, "error-place", "raised after ", delivered, " documents, the error is in ", bad, " ", why, " | ", printable(text, 1500));
		count("error-inside");
	} else {
		VH_CHECK(!raised, "refused", why, " | ", printable(text, 1500));
		VH_CHECK(delivered == docs.size(), "missing", delivered, " of ", docs.size(), " documents | ", printable(text, 1500));
		count(how ? "one-emitter" : "concatenated");
	}
	for (size_t i = 0; i < kept.size(); ++i) check(docs[i], kept[i], i, "changed-later", text);
	if (docs.empty()) count("no-documents");
	count(cat("documents-", docs.size() > 3 ? "many" : "few").c_str());
	nontrivial(mix(hash(text), pattern));
	sample(printable(text, 300));
}

// A parser that reads one document after another from the same input.
static void reuse(Ctx &c) {
	Rng &r = c.rng;
	std::vector<MV> docs;
	std::string text;
	bool json = r.coin();
	SerializeType t = json ? SERIALIZE_JSON : SERIALIZE_YAML;
	for (int n = r.range(1, 6); n > 0; --n) {
		docs.push_back(gen_doc(r, t));
		if (json) {
			text += Serialize(to_variant(docs.back(), r), t, gen_params(r, t));
			static const char *sep[] = { "", " ", "\n", "\r\n\t ", "\n\n" };
			text += sep[r.below(5)];
		}
	}
	if (!json) text = stream(r, docs, r.below(2));
	describe(cat(format_name(t), " ", list(docs), " | ", text));
	Source src(r, text);
	Parser p = CreateParser(src.in, t);
	std::vector<Variant> got;
	for (size_t i = 0; i < docs.size(); ++i) {
		try { got.push_back(ParseVariant(p)); }
		catch (const std::exception &e) { throw Fail(cat("reuse-refused-", format_name(t)), cat("document ", i, " ", e.what(), " | ", printable(text, 1500))); }
		check(docs[i], got.back(), i, json ? "reuse-json" : "reuse-yaml", text);
		VH_CHECK(!p.Error(), "reuse-error-flag", "after document ", i);
		if (json) { VH_CHECK(p.Done(), "reuse-not-done", "after document ", i); p.Reset(); }
	}
	for (size_t i = 0; i < got.size(); ++i) check(docs[i], got[i], i, "changed-later", text);
	count(json ? "reuse-json" : "reuse-yaml");
	nontrivial(hash(text));
}

// The other formats hold one document.
static void single(Ctx &c) {
	Rng &r = c.rng;
	static const SerializeType types[] = { SERIALIZE_JSON, SERIALIZE_XMLPLIST };
	SerializeType t = types[r.below(2)];
	MV doc = gen_doc(r, t);
	std::string text = Serialize(to_variant(doc, r), t, gen_params(r, t));
	describe(cat(format_name(t), " ", show(doc, 3000)));
	Source src(r, text);
	Parser p = CreateParser(src.in, t);
	size_t n = 0;
	for (LoadAllIterator it(p), end; it != end && n < 3; ++it, ++n) if (n == 0) check(doc, *it, 0, "single", text);
	VH_CHECK(n == 1, cat("single-count-", format_name(t)), n, n == 3 ? " or more" : "", " documents from ", printable(text, 1500));
	count(cat("single-", format_name(t)).c_str());
	nontrivial(hash(text));
}

static void one(Ctx &c) {
	if (c.rng.chance(1, 8)) { single(c); return; }
	if (c.rng.chance(2, 3)) yaml(c); else reuse(c);
}
int main(int argc, char **argv) { return vh::run(argc, argv, one); }
