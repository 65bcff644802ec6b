#include "io.h"
using namespace libvariant;

namespace vh {

	// any reason but an interruption, after which trying again would be right
	static int some_error(Rng &r) {
		static const int E[] = {EIO, EIO, EAGAIN, EBADF, ENOMEM, ETIMEDOUT, ESTALE, ECONNRESET, EISDIR};
		return E[r.below(9)];
	}
	static ssize_t feed_read(void *c, char *buf, size_t n) {
		long k = ((Feed *)c)->take(buf, n);
		if (k < 0) errno = some_error(((Feed *)c)->rng);
		return k;
	}
	FILE *feed_file(Feed *f) {
		cookie_io_functions_t io;
		memset(&io, 0, sizeof(io));
		io.read = feed_read;
		FILE *file = fopencookie(f, "r", io);
		if (!file) harness_error("fopencookie");
		switch (f->rng.below(3)) {
		case 0: setvbuf(file, 0, _IONBF, 0); break;
		case 1: setvbuf(file, 0, _IOFBF, 64 + f->rng.below(9000)); break;
		default: break;
		}
		return file;
	}
	FeedBuf::int_type FeedBuf::underflow() {
		long k = f->take(buf, sizeof(buf));
		if (k < 0) throw std::runtime_error("source failed");
		if (k == 0) return traits_type::eof();
		setg(buf, buf, buf + k);
		return traits_type::to_int_type(buf[0]);
	}
	unsigned FeedStream::Read(void *ptr, unsigned len) {
		long k = f->take((char *)ptr, len);
		if (k < 0) throw std::runtime_error("source failed");
		return (unsigned)k;
	}
	const void *FeedInput::GetPtr(unsigned &len) {
		unsigned want = len ? len : 1;
		// what was given and not released is given again, first
		size_t left = f->data.size() - f->pos;
		if (want > left) want = (unsigned)left;
		unsigned extra = (unsigned)f->rng.below(f->max);
		unsigned give = extra > left - want ? (unsigned)left : want + extra;
		if (f->fail_at != (size_t)-1 && f->pos + give > f->fail_at) {
			if (f->pos + want > f->fail_at || f->pos >= f->fail_at) { f->failed = true; throw std::runtime_error("source failed"); }
			give = (unsigned)(f->fail_at - f->pos);
		}
		if (f->fail_at != (size_t)-1 && give == 0) { f->failed = true; throw std::runtime_error("source failed"); }
		free(block);
		block = 0;
		given = give;
		len = give;
		if (!give) return 0;
		block = (char *)malloc(give);
		memcpy(block, f->data.data() + f->pos, give);
		return block;
	}
	void FeedInput::Release(unsigned len) {
		if (len > given) throw Fail("released-more-than-given", cat("released ", len, " of ", given));
		f->pos += len;
		given -= len;
	}

	size_t Sink::put(const char *p, size_t n) {
		size_t k = n;
		if (partial && n > 1) k = 1 + rng.below(n);
		if (how != SYNC_ONLY && limit != (size_t)-1 && data.size() + k > limit) {
			k = limit > data.size() ? limit - data.size() : 0;
			if (k == 0 && n) {
				++failures;
				switch (how) {
				case THROW_RUNTIME: throw std::runtime_error("sink failed");
				case THROW_LENGTH: throw std::length_error("sink failed");
				case THROW_ALLOC: throw std::bad_alloc();
				default: return 0;
				}
			}
		}
		data.append(p, k);
		return k;
	}
	bool Sink::sync() {
		if (how == SYNC_ONLY && limit != (size_t)-1 && data.size() > limit) { ++failures; return false; }
		return true;
	}
	static ssize_t sink_write(void *c, const char *buf, size_t n) {
		Sink *s = (Sink *)c;
		// like a file, all of it unless there is an error
		size_t k = 0;
		while (k < n) {
			size_t x = s->put(buf + k, n - k);
			if (!x) { errno = s->rng.coin() ? ENOSPC : some_error(s->rng); break; }
			k += x;
		}
		return (ssize_t)k;
	}
	FILE *sink_file(Sink *s) {
		cookie_io_functions_t io;
		memset(&io, 0, sizeof(io));
		io.write = sink_write;
		FILE *file = fopencookie(s, "w", io);
		if (!file) harness_error("fopencookie");
		switch (s->rng.below(4)) {
		case 0: setvbuf(file, 0, _IONBF, 0); break;
		case 1: setvbuf(file, 0, _IOLBF, 0); break;
		case 2: setvbuf(file, 0, _IOFBF, 16 + s->rng.below(3000)); break;
		default: break;
		}
		return file;
	}

	const SerializeType FORMATS[4] = { SERIALIZE_JSON, SERIALIZE_YAML, SERIALIZE_XMLPLIST, SERIALIZE_BUNDLEHDR };
	const char *format_name(SerializeType t) {
		switch (t) {
		case SERIALIZE_JSON: return "json";
		case SERIALIZE_YAML: return "yaml";
		case SERIALIZE_XMLPLIST: return "xml";
		case SERIALIZE_BUNDLEHDR: return "bundle";
		default: return "guess";
		}
	}

	static MV flat_scalar(Rng &r, bool item) {
		switch (r.below(5)) {
		case 0: return MV::Bool(r.coin());
		case 1: return MV::Int(gen_int(r));
		case 2: return MV::Float(gen_double(r, false));
		default: {
			std::string s = item || !r.chance(1, 10) ? "t" : "";
			if (!s.empty()) for (int n = r.chance(1, 15) ? r.range(500, 9000) : r.below(20); n > 0; --n) { char c = (char)r.range(33, 126); s += c == '|' || c == '#' ? '_' : c; }
			return MV::Str(s);
		}
		}
	}
	MV gen_doc(Rng &r, SerializeType t, bool json_blobs) {
		Gen g;
		if (t == SERIALIZE_BUNDLEHDR) {
			MV m = MV::Map();
			for (int n = r.chance(1, 10) ? r.range(30, 400) : r.below(8); n > 0; --n) {
				std::string k = cat("k", r.below(100000));
				if (r.chance(1, 4)) { MV l = MV::List(); for (int i = r.below(5); i > 0; --i) l.l.push_back(flat_scalar(r, true)); m.m[k] = l; }
				else m.m[k] = flat_scalar(r, false);
			}
			return m;
		}
		g.xml_safe = t == SERIALIZE_XMLPLIST;
		g.nonfinite = t == SERIALIZE_YAML;
		g.blobs = t != SERIALIZE_JSON || json_blobs;
		g.max_depth = 3;
		MV d = t != SERIALIZE_JSON && r.chance(1, 6) ? gen_scalar(r, g) : gen_container(r, g);
		if (r.chance(1, 6)) {
			MV l = MV::List();
			Gen h = g;
			h.max_depth = g.max_depth - 2;
			l.l.push_back(d);
			for (int n = r.range(2, 60); n > 0; --n) l.l.push_back(r.coin() ? gen_scalar(r, g) : gen_container(r, h));
			if (r.coin()) l.l.push_back(MV::Str(std::string(r.range(1000, 20000), 'x')));
			d = l;
		}
		return d;
	}
	Variant gen_params(Rng &r, SerializeType t) {
		if (t == SERIALIZE_BUNDLEHDR || r.chance(1, 4)) return Variant::NullType;
		Variant p = Variant::MapType;
		if (t == SERIALIZE_JSON || t == SERIALIZE_XMLPLIST) {
			if (r.coin()) p["pretty"] = r.coin();
			if (r.coin()) p["indent"] = r.chance(1, 10) ? r.range(20, 200) : r.below(9);
		} else {
			static const char *styles[] = { "any", "block", "flow" };
			if (r.coin()) p["map_style"] = styles[r.below(3)];
			if (r.coin()) p["list_style"] = styles[r.below(3)];
			if (r.coin()) p["implicit_document_begin"] = r.coin();
			if (r.coin()) p["implicit_document_end"] = r.coin();
			if (r.coin()) p["indent"] = r.range(2, 9);
			if (r.coin()) p["width"] = r.range(20, 200);
		}
		return p;
	}
	std::string gen_text(Rng &r, SerializeType t) {
		MV d = gen_doc(r, t);
		std::string s = Serialize(to_variant(d, r), t, gen_params(r, t));
		if (r.chance(1, 5)) {
			// place the interesting part next to a buffer boundary
			size_t target = (r.coin() ? 4096 : 8192) + r.below(8);
			if (r.coin() && s.size() < target) target -= s.size() / 2 < target ? s.size() / 2 : 0;
			std::string pad;
			switch (t) {
			case SERIALIZE_YAML: case SERIALIZE_BUNDLEHDR: pad = "# " + std::string(target, 'p') + "\n"; break;
			case SERIALIZE_JSON: pad = std::string(target, ' '); break;
			default: {
				size_t p = s.find("?>");
				if (p != std::string::npos) s.insert(p + 2, "<!-- " + std::string(target, 'p') + " -->");
			}
			}
			s = pad + s;
		}
		return s;
	}
	std::string corrupt(Rng &r, std::string s) {
		static const char raw[] = "\0\x01\t\n\r \"#&'*,-./0123456789:;<>?@[\\]^_`aeftnu{|}~\x7f\x80\xc0\xe2\xed\xf4\xfe\xff!%=";
		static const std::string bytes(raw, sizeof(raw) - 1);
		for (int n = r.range(1, 3); n > 0; --n) {
			size_t p = r.below(s.size() + 1);
			switch (r.below(6)) {
			case 0: s.resize(p); break;
			case 1: s.insert(p, 1, bytes[r.below(bytes.size())]); break;
			case 2: if (p < s.size()) s[p] = bytes[r.below(bytes.size())]; break;
			case 3: if (p < s.size()) s.erase(p, 1 + r.below(8)); break;
			case 4: { size_t q = r.below(s.size() + 1); if (p < q) s.insert(q, s.substr(p, std::min<size_t>(q - p, 60))); break; }
			default: if (p < s.size()) s[p] ^= (char)(1 << r.below(8)); break;
			}
		}
		return s;
	}
}
