// Reference document model, generator and conversions through the public API.
#ifndef MODEL_H
#define MODEL_H
#include "vh.h"
#include <Variant/Variant.h>

namespace vh {

	enum Kind { K_NULL, K_BOOL, K_INT, K_UINT, K_FLOAT, K_STR, K_LIST, K_MAP, K_BLOB };

	struct MV {
		Kind k;
		bool b;
		int64_t i;
		uint64_t u;
		double f;
		std::string s;              // string or blob bytes
		std::vector<MV> l;
		std::map<std::string, MV> m;
		MV() : k(K_NULL), b(false), i(0), u(0), f(0) {}
		static MV Null() { return MV(); }
		static MV Bool(bool v) { MV r; r.k = K_BOOL; r.b = v; return r; }
		static MV Int(int64_t v) { MV r; r.k = K_INT; r.i = v; return r; }
		static MV Uint(uint64_t v) { MV r; r.k = K_UINT; r.u = v; return r; }
		static MV Float(double v) { MV r; r.k = K_FLOAT; r.f = v; return r; }
		static MV Str(const std::string &v) { MV r; r.k = K_STR; r.s = v; return r; }
		static MV Blob(const std::string &v) { MV r; r.k = K_BLOB; r.s = v; return r; }
		static MV List() { MV r; r.k = K_LIST; return r; }
		static MV Map() { MV r; r.k = K_MAP; return r; }
		bool isnum() const { return k == K_INT || k == K_UINT || k == K_FLOAT; }
	};

	struct EqOpt {
		EqOpt() : exact_int_kind(false), blob_as_null(false), nonfinite_as_null(false) {}
		bool exact_int_kind;        // integer and unsigned are different kinds
		bool blob_as_null;
		bool nonfinite_as_null;
	};
	// Empty string when equal, otherwise where and how they differ.
	std::string diff(const MV &a, const MV &b, const EqOpt &o = EqOpt(), const std::string &path = "$");
	inline bool same(const MV &a, const MV &b, const EqOpt &o = EqOpt()) { return diff(a, b, o).empty(); }

	std::string show(const MV &v, size_t max = 1500);
	uint64_t shape(const MV &v);       // hash of kinds and nesting, with value classes
	size_t nodes(const MV &v);
	int depth(const MV &v);

	struct Gen {
		Gen() : max_depth(4), max_items(5), blobs(true), nonfinite(false), nul(false), uints(true), floats(true), nulls(true),
			ctrl(true), unicode(true), ambiguous(true), big_strings(true), empty_containers(true), empty_blob(true), keys_any(true), bools(true), xml_safe(false) {}
		int max_depth, max_items;
		bool blobs, nonfinite, nul, uints, floats, nulls, ctrl, unicode, ambiguous, big_strings, empty_containers, empty_blob, keys_any, bools;
		bool xml_safe;              // only characters XML 1.0 text can hold, no CR
	};
	std::string gen_utf8(Rng &r, const Gen &g);
	std::string gen_string(Rng &r, const Gen &g);
	std::string gen_key(Rng &r, const Gen &g);
	double gen_double(Rng &r, bool nonfinite);
	int64_t gen_int(Rng &r);
	uint64_t gen_uint(Rng &r);
	std::string gen_bytes(Rng &r, size_t max, bool allow_empty = true);
	MV gen_scalar(Rng &r, const Gen &g);
	MV gen(Rng &r, const Gen &g, int depth = 0);
	MV gen_container(Rng &r, const Gen &g, int depth = 0);   // list or map
	MV gen_large(Rng &r, const Gen &g, int deepest);         // more, longer or deeper than any internal size

	libvariant::Variant to_variant(const MV &v);
	// Builds blobs with random segmentation.
	libvariant::Variant to_variant(const MV &v, Rng &r);
	MV from_variant(const libvariant::Variant &v);
	std::string blob_bytes(libvariant::ConstBlobPtr b);
	libvariant::BlobPtr make_blob(const std::string &bytes, Rng *r = 0);
	std::string bits(double d);
}
#endif
