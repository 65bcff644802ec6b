// Stand-ins for input sources and output destinations: any chunking, short writes, injected failures.
#ifndef IO_H
#define IO_H
#include "model.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <streambuf>
#include <errno.h>

namespace vh {

	// How a source hands out its bytes.
	struct Feed {
		Feed(const std::string &d, uint64_t seed) : data(d), pos(0), rng(seed), fail_at((size_t)-1), failed(false) {
			switch (rng.below(5)) {
			case 0: max = 1; break;
			case 1: max = 3; break;
			case 2: max = 100; break;
			case 3: max = 5000; break;
			default: max = 100000;
			}
		}
		std::string data;
		size_t pos;
		Rng rng;
		size_t max;
		size_t fail_at;       // a read that reaches this offset fails
		bool failed;
		// Bytes for a read of up to n; 0 at the end; -1 for a failure.
		long take(char *out, size_t n) {
			size_t left = data.size() - pos;
			size_t k = 1 + rng.below(max);
			if (k > n) k = n;
			if (k > left) k = left;
			if (fail_at != (size_t)-1 && pos + k >= fail_at) {
				if (pos >= fail_at) { failed = true; return -1; }
				k = fail_at - pos;
			}
			memcpy(out, data.data() + pos, k);
			pos += k;
			return (long)k;
		}
	};
	FILE *feed_file(Feed *f);              // the caller closes it; the feed must outlive it

	struct FeedBuf : public std::streambuf {
		explicit FeedBuf(Feed *f_) : f(f_) {}
		Feed *f;
		char buf[5000];
		int_type underflow();
	};
	// Uses the documented contract of Read: any number of bytes, 0 at the end, throw on error.
	struct FeedStream : public libvariant::ParserStreamInput {
		FeedStream(Feed *f_, unsigned len) : libvariant::ParserStreamInput(len), f(f_) {}
		Feed *f;
		unsigned Read(void *ptr, unsigned len);
	};
	// Hands out a fresh block for each request, at least what was asked for unless the data ends.
	struct FeedInput : public libvariant::ParserInput {
		FeedInput(Feed *f_) : f(f_), block(0), given(0) {}
		~FeedInput() { free(block); }
		Feed *f;
		char *block;
		unsigned given;
		const void *GetPtr(unsigned &len);
		void Release(unsigned len);
	};

	// A destination that takes part of each write and may fail once it holds `limit` bytes.
	struct Sink {
		enum How { SHORT, THROW_RUNTIME, THROW_LENGTH, THROW_ALLOC, SYNC_ONLY };
		Sink(uint64_t seed) : rng(seed), partial(false), limit((size_t)-1), how(SHORT), failures(0) {}
		std::string data;
		Rng rng;
		bool partial;
		size_t limit;
		How how;
		unsigned failures;
		size_t put(const char *p, size_t n);     // bytes taken, or throws
		bool sync();
	};
	FILE *sink_file(Sink *s);
	struct SinkBuf : public std::streambuf {
		explicit SinkBuf(Sink *s_) : s(s_) {}
		Sink *s;
		std::streamsize xsputn(const char *p, std::streamsize n) { return (std::streamsize)s->put(p, (size_t)n); }
		int_type overflow(int_type c) { char x = (char)c; if (c == EOF) return 0; return s->put(&x, 1) == 1 ? c : EOF; }
		int sync() { return s->sync() ? 0 : -1; }
	};
	struct SinkOut : public libvariant::EmitterOutput {
		explicit SinkOut(Sink *s_) : s(s_), total(0) {}
		Sink *s;
		unsigned total;
		unsigned Write(const void *p, unsigned n) {
			size_t k = s->put((const char *)p, n);
			if (n && !k) throw std::runtime_error("sink is full");
			total += k;
			return k;
		}
		void Flush() { if (!s->sync()) throw std::runtime_error("sink cannot flush"); }
		unsigned NumBytesWritten() const { return total; }
	};

	extern const libvariant::SerializeType FORMATS[4];
	const char *format_name(libvariant::SerializeType t);

	// A document this format can hold, and parameters for it.
	MV gen_doc(Rng &r, libvariant::SerializeType t, bool json_blobs = true);
	libvariant::Variant gen_params(Rng &r, libvariant::SerializeType t);
	// A text in this format, sometimes longer than every buffer.
	std::string gen_text(Rng &r, libvariant::SerializeType t);
	// One to three random edits.
	std::string corrupt(Rng &r, std::string s);
}
#endif
