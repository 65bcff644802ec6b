// V13: serialized bytes are the same for every destination, and memory bounds are kept.
#include "io.h"
#include "named.h"
#include <sstream>
#include <fstream>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

static const int DESTS = 9;
static const char *names[DESTS] = { "file-name", "file", "partial-file", "stringbuf", "partial-streambuf", "memory", "memory-output", "memory-output-no-length", "partial-output" };

static std::string slurp(const std::string &name) {
	std::ifstream i(name.c_str(), std::ios::binary);
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}
static void check(const std::string &want, const std::string &got, int dest, SerializeType t, const MV &doc) {
	VH_CHECK(want == got, cat("destination-", names[dest], "-", format_name(t)), "wrote ", got.size(), " bytes, string has ", want.size(), " | ", printable(got, 600), " | ", printable(want, 600), " | ", show(doc, 600));
	count(names[dest]);
}
static void emit_all(shared_ptr<EmitterOutput> out, const Variant &v, SerializeType t, const Variant &params, size_t want) {
	Emitter e = CreateEmitter(out, t, params);
	e << v;
	e.Close();
	VH_CHECK(out->NumBytesWritten() == want, cat("bytes-written-count-", format_name(t)), "reported ", out->NumBytesWritten(), " of ", want);
}

static void one(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	if (t != SERIALIZE_BUNDLEHDR && r.chance(1, 2000)) { Gen g; g.xml_safe = true; doc = gen_large(r, g, 200); count("large"); }
	Variant params = gen_params(r, t), v = to_variant(doc, r);
	// the functions named after the format take few parameters or none
	Named api(r.chance(1, 4));
	if (api.on) {
		params = Variant::MapType;
		if ((t == SERIALIZE_JSON || t == SERIALIZE_XMLPLIST) && r.coin()) params["pretty"] = r.coin();
		count("named");
	}
	describe(cat(format_name(t), " ", show(doc, 5000), " params ", params.IsMap() ? SerializeJSON(params) : "none"));
	std::string want = Serialize(v, t, params);
	VH_CHECK(api.write(t, params, v) == want, cat("destination-named-", format_name(t)), printable(want, 600), " | ", show(doc, 600));
	count("documents");
	if (want.size() > 8192) count("longer-than-8192");
	for (int d = 0; d < DESTS; ++d) {
		try {
			switch (d) {
			case 0: {
				if (!r.chance(1, 4)) break;
				static std::string name = cat(scratch(), "/v13-", getpid());
				api.write(t, params, v, name);
				check(want, slurp(name), d, t, doc);
				break;
			}
			case 1: {
				char *buf = 0;
				size_t n = 0;
				FILE *f = open_memstream(&buf, &n);
				try { api.write(t, params, v, f); }
				catch (...) { fclose(f); free(buf); throw; }
				fclose(f);
				std::string got(buf, n);
				free(buf);
				check(want, got, d, t, doc);
				break;
			}
			case 2: {
				Sink s(r.next());
				s.partial = true;
				FILE *f = sink_file(&s);
				try { api.write(t, params, v, f); }
				catch (...) { fclose(f); throw; }
				fclose(f);
				check(want, s.data, d, t, doc);
				break;
			}
			case 3: {
				std::stringbuf sb;
				api.write(t, params, v, (std::streambuf *)&sb);
				check(want, sb.str(), d, t, doc);
				break;
			}
			case 4: {
				Sink s(r.next());
				s.partial = true;
				SinkBuf sb(&s);
				api.write(t, params, v, (std::streambuf *)&sb);
				check(want, s.data, d, t, doc);
				break;
			}
			case 5: case 6: case 7: {
				size_t n = want.size();
				switch (r.below(8)) {
				case 0: if (n) --n; break;
				case 1: n = r.below(n + 1); break;
				case 2: n += 1; break;
				case 3: n += 1 + r.below(5000); break;
				case 4: n = n > 128 ? n - 1 - r.below(128) : 0; break;
				default: break;
				}
				// every byte next to the block is watched
				char *block = (char *)malloc(n);
				memset(block, 0x5a, n);
				bool raised = false;
				unsigned len = 0;
				try {
					if (d == 5) len = api.write(t, params, v, (void *)block, (unsigned)n);
					else if (d == 6) { emit_all(CreateEmitterOutput(block, (unsigned)n, &len), v, t, params, want.size()); }
					else { emit_all(CreateEmitterOutput(block, (unsigned)n), v, t, params, want.size()); len = (unsigned)want.size(); }
				} catch (const Fail &) { free(block); throw; }
				catch (const std::exception &) { raised = true; }
				std::string got(block, raised ? 0 : std::min<size_t>(len, n));
				bool tail = true;
				if (!raised) for (size_t i = len; i < n; ++i) tail = tail && block[i] == 0x5a;
				free(block);
				if (n >= want.size()) {
					VH_CHECK(!raised, cat("memory-large-enough-refused-", format_name(t)), n, " bytes for ", want.size(), " | ", show(doc, 600));
					VH_CHECK(len == want.size(), cat("memory-length-", format_name(t)), "reported ", len, " of ", want.size(), " | ", show(doc, 600));
					VH_CHECK(tail, cat("memory-beyond-length-", format_name(t)), "bytes after the reported length were changed");
					check(want, got, d, t, doc);
				} else {
					VH_CHECK(raised || len > n, cat("memory-too-small-unnoticed-", format_name(t)), n, " bytes for ", want.size(), ", reported ", len, " | ", show(doc, 600));
					count("too-small");
				}
				break;
			}
			default: {
				Sink s(r.next());
				s.partial = true;
				emit_all(shared_ptr<EmitterOutput>(new SinkOut(&s)), v, t, params, want.size());
				check(want, s.data, d, t, doc);
			}
			}
		} catch (const Fail &) { throw; }
		catch (const std::exception &e) {
			throw Fail(cat("destination-", names[d], "-", format_name(t), "-refused"), cat(e.what(), " | ", show(doc, 600)));
		}
	}
	nontrivial(mix(hash(want), t));
	if (want.size() < 200) sample(cat(format_name(t), " ", printable(want)));
}

int main(int argc, char **argv) { return vh::run(argc, argv, one); }
