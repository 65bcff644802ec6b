From 3df0ab19ceccc0e0282a68a7417b5d561d32f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:54 +0000
Subject: [PATCH 001/122] fix: skip zero length segments when base64 encoding

Encoding an empty blob, or one with an empty segment, read a byte from the
empty segment and put it in the output.
---
 src/Base64.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..7aef14d 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,12 +15,13 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_empty(); }
 		iov_iterator &operator++() {
 			++offset;
 			if (offset >= iov[slab].iov_len) {
 				++slab;
 				offset = 0;
+				skip_empty();
 			}
 			return *this;
 		}
@@ -46,6 +47,10 @@ namespace libvariant {
 		}
 
 	private:
+		void skip_empty() {
+			while (slab < len && iov[slab].iov_len == 0) { ++slab; }
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 53275fc5394c62e48f3969b5505c9e2e549383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:54 +0000
Subject: [PATCH 002/122] fix: do not read past the base64 decoding table for
 '{'

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 7aef14d..8ee6422 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -133,7 +133,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 1b450c934f99e2eb60f7bb669ce95cd367c739ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:55 +0000
Subject: [PATCH 003/122] fix: never end a JSON number with the decimal point

A double with as many integer digits as the precision was written as
"12345678901234567.", which is not JSON.
---
 src/JSONEmitter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..7b2aa1a 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -131,6 +131,8 @@ namespace libvariant {
 			oss << "null";
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
+			// showpoint may leave a trailing point, which JSON does not permit
+			if (*oss.str().rbegin() == '.') { oss << '0'; }
 		}
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
-- 
2.43.0


From 2fd42a36bfba9f4e24de023292a99b1a838d1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:13 +0000
Subject: [PATCH 004/122] fix: do not read a moved list element when assigning
 it past the end

list[5] = list[0] grew the list while resolving the left side and then read
the right side from the list's old, freed storage.
---
 src/Variant.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..c78cc65 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -251,8 +251,13 @@ namespace libvariant {
 		// VTable 
 		//--------------------
 
-		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		void VTable::Assign(const Data *that, Data *other) const {
+			// Resolving other may create it and so move that, when both are elements of one list
+			Variant value;
+			that->vtable->Copy(that, GetData(&value));
+			Data *res = GetData(other->vtable->Resolve(other));
+			GetData(&value)->vtable->Copy(GetData(&value), res);
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From 6d064d1c3374ea3c3bcfdf229486cf335e6e1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:13 +0000
Subject: [PATCH 005/122] fix: allow assigning a value's own list or map to it

v = v.AsList() released the list before copying from it.
---
 include/Variant/Variant.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index a01d238..bc59974 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -393,14 +393,18 @@ namespace libvariant {
 
 		template<typename T>
 		void Assign(const std::vector<T> &v) {
+			// v may be our own list, which the assignment below releases
+			List list(v.begin(), v.end());
 			Assign(VariantDefines::ListType);
-			AsList().assign(v.begin(), v.end());
+			AsList().swap(list);
 		}
 
 		template<typename T>
 		void Assign(const std::map<std::string, T> &v) {
+			// v may be our own map, which the assignment below releases
+			Map map(v.begin(), v.end());
 			Assign(VariantDefines::MapType);
-			AsMap().insert(v.begin(), v.end());
+			AsMap().swap(map);
 		}
 
 	protected:
-- 
2.43.0


From 5bd5d38de3455fb5c50b18b6d8b179722b1b3006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:35 +0000
Subject: [PATCH 006/122] fix: blobs that differ only in length are not equal

---
 src/Blob.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..4eb718c 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,6 +116,13 @@ namespace libvariant {
 				++j;
 			}
 		}
+		// Equal so far, the one that still has bytes left is greater
+		for (; i < GetNumBuffers(); ++i) {
+			if (GetLength(i) > 0) { return 1; }
+		}
+		for (; j < other->GetNumBuffers(); ++j) {
+			if (other->GetLength(j) > 0) { return -1; }
+		}
 		return 0;
 	}
 }
-- 
2.43.0


From a4d0b379b77099f80a5336b1c161f22d4d3927c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:35 +0000
Subject: [PATCH 007/122] fix: empty blobs are ordinary blobs

Copying or comparing a segment without memory passed null to memcpy/memcmp, a
blob without segments indexed an empty vector, and a value created by type as a
blob held no blob at all, so taking its size or writing it crashed.
---
 include/Variant/Blob.h | 4 ++--
 src/Blob.cc            | 9 ++++++---
 src/Variant.cc         | 2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/Variant/Blob.h b/include/Variant/Blob.h
index 11d7bf6..5e32c39 100644
--- a/include/Variant/Blob.h
+++ b/include/Variant/Blob.h
@@ -40,8 +40,8 @@ namespace libvariant {
 		void *GetPtr(unsigned i) { return iov[i].iov_base; }
 		const void *GetPtr(unsigned i) const { return iov[i].iov_base; }
 		unsigned GetLength(unsigned i) const { return iov[i].iov_len; }
-		struct iovec *GetIOVec() { return &iov[0]; }
-		const struct iovec *GetIOVec() const { return &iov[0]; }
+		struct iovec *GetIOVec() { return iov.empty() ? 0 : &iov[0]; }
+		const struct iovec *GetIOVec() const { return iov.empty() ? 0 : &iov[0]; }
 		unsigned GetNumBuffers() const { return iov.size(); }
 		unsigned GetTotalLength() const;
 
diff --git a/src/Blob.cc b/src/Blob.cc
index 4eb718c..452fc94 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -44,6 +44,7 @@ namespace libvariant {
 		}
 #endif
 		for (unsigned i = 0, copied = 0; i < iov_len; ++i) {
+			if (iov[i].iov_len == 0) { continue; }
 			memcpy((char*)data + copied, iov[i].iov_base, iov[i].iov_len);
 			copied += iov[i].iov_len;
 		}
@@ -86,7 +87,7 @@ namespace libvariant {
 	}
 
 	shared_ptr<Blob> Blob::Copy() const {
-		return CreateCopy(&iov[0], iov.size());
+		return CreateCopy(GetIOVec(), iov.size());
 	}
 
 	unsigned Blob::GetTotalLength() const {
@@ -103,8 +104,10 @@ namespace libvariant {
 		unsigned i = 0, j = 0;
 		while (i < GetNumBuffers() && j < other->GetNumBuffers()) {
 			unsigned len = std::min(GetLength(i) - our_offset, other->GetLength(j) - oth_offset);
-			int res = memcmp((char*)(GetPtr(i)) + our_offset, (char*)(other->GetPtr(j)) + oth_offset, len);
-			if (res != 0) { return res; }
+			if (len > 0) {
+				int res = memcmp((char*)(GetPtr(i)) + our_offset, (char*)(other->GetPtr(j)) + oth_offset, len);
+				if (res != 0) { return res; }
+			}
 			our_offset += len;
 			if (our_offset >= GetLength(i)) {
 				our_offset = 0;
diff --git a/src/Variant.cc b/src/Variant.cc
index c78cc65..b82e82c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1976,7 +1976,7 @@ namespace libvariant {
 				MapInit(that, Variant::Map());
 				break;
 			case VariantDefines::BlobType:
-				BlobInit(that, BlobPtr());
+				BlobInit(that, libvariant::Blob::CreateCopy("", 0));
 				break;
 			}
 		}
-- 
2.43.0


From b1c8d5da4a8cdb0b38923b912a26de792ae1ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:09 +0000
Subject: [PATCH 008/122] fix: re-pointing a reference to itself or to what it
 keeps alive

The old target was released before the new one was set up, so the path or the
element the reference was to denote could already be freed.
---
 src/Variant.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index b82e82c..92ec9a1 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1633,6 +1633,8 @@ namespace libvariant {
 
 		void RefInit(Data *that, const Data *other) {
 			static const Ref ref_vtable;
+			// What that held until now may be all that keeps other alive
+			shared_ptr<Storage> keep = that->storage;
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
 			// XXX: const cast.. double ICKY!
@@ -1938,6 +1940,8 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			// What that held until now may be all that keeps ref and the path alive
+			shared_ptr<Storage> keep = that->storage;
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
 			that->ref_data = ref->vtable->EnsureRef(ref);
-- 
2.43.0


From 554785a503838fe48e226226b53974edc3cc3f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:48 +0000
Subject: [PATCH 009/122] fix: read negative floats as signed char through the
 signed conversion

---
 include/Variant/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index bc59974..b2151ce 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -467,7 +467,7 @@ namespace libvariant {
 	template<> inline bool VariantCaster<bool>::Cast(const Variant &v) { return v.AsBool(); }
 	template<> inline char VariantCaster<char>::Cast(const Variant &v) { return (char)v.AsInt(); }
 	template<> inline unsigned char VariantCaster<unsigned char>::Cast(const Variant &v) { return (unsigned char)v.AsUnsigned(); }
-	template<> inline signed char VariantCaster<signed char>::Cast(const Variant &v) { return (signed char)v.AsUnsigned(); }
+	template<> inline signed char VariantCaster<signed char>::Cast(const Variant &v) { return (signed char)v.AsInt(); }
 	template<> inline short VariantCaster<short>::Cast(const Variant &v) { return (short)v.AsInt(); }
 	template<> inline unsigned short VariantCaster<unsigned short>::Cast(const Variant &v) { return (unsigned short)v.AsUnsigned(); }
 	template<> inline int VariantCaster<int>::Cast(const Variant &v) { return (int)v.AsInt(); }
-- 
2.43.0


From a15eb0563128363c2608b266ebadd14f6f5beb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:46 +0000
Subject: [PATCH 010/122] fix: do not compare not a number equal to every
 number

---
 src/Variant.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 92ec9a1..194d14f 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -759,8 +759,10 @@ namespace libvariant {
 				long double us = that->vtable->AsLongDouble(that);
 				long double o = other->vtable->AsLongDouble(other);
 				if (us < o) { return -1; }
-				else if (us > o) { return 1; }
-				else { return 0; }
+				else if (us == o) { return 0; }
+				// not a number only equals not a number
+				else if (us != us && o != o) { return 0; }
+				else { return 1; }
 			}
 			return 1;
 		}
-- 
2.43.0


From 476671e2708fb56d04568632c589db903a733d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:26 +0000
Subject: [PATCH 011/122] fix: setting the largest list index must not empty
 the list

---
 src/Variant.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 194d14f..89f5ae9 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1178,7 +1178,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize((size_t)i + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
 			} else {
@@ -1208,7 +1208,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize((size_t)i + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
 		}
-- 
2.43.0


From e14851d3776ea5f794ddafef4f3414dbb0f11e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:26 +0000
Subject: [PATCH 012/122] fix: reject malformed list indices in path text

---
 src/Path.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..f056c6e 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -21,8 +21,8 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
-					unsigned long long i = 0;
-					if (!(iss >> i)) {
+					unsigned i = 0;
+					if (frag.find_first_not_of("0123456789") != std::string::npos || !(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
 					parsed_path.push_back(i);
@@ -69,6 +69,12 @@ namespace libvariant {
 			}
 			++c;
 		}
+		if (index) {
+			throw std::runtime_error("Error parsing Variant path: missing \"]\" after \"" + frag + "\".");
+		}
+		if (escape) {
+			throw std::runtime_error("Error parsing Variant path: nothing to escape at the end of \"" + path + "\".");
+		}
 		if (!frag.empty()) { parsed_path.push_back(frag); }
 	}
 
-- 
2.43.0


From ade797cad47ca8a1e4a066a3d4acd95c11aefbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:09 +0000
Subject: [PATCH 013/122] fix: erasing the largest list index must not raise

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 89f5ae9..13e9123 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1167,7 +1167,7 @@ namespace libvariant {
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (i < size && i + 1 != size) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
-- 
2.43.0


From f3b0d09bb3bad7c27544e9e7cd3d9bf2bb1e5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:57 +0000
Subject: [PATCH 014/122] fix: accept an exponent after a zero in JSON numbers

---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..9e8441d 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From 2790b8f608d7c6196725228005696f4171a1e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:23 +0000
Subject: [PATCH 015/122] fix: a YAML alias refers to the latest anchor of its
 name

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..025b08c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -49,7 +49,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
-- 
2.43.0


From f4b60053ca1f0700ff00dd302d7d81e635e036b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:41 +0000
Subject: [PATCH 016/122] fix: quote YAML text that would be read back as
 another type

---
 src/GuessScalar.cc | 12 ++++++++++--
 src/GuessScalar.h  |  3 +++
 src/YAMLEmitter.cc |  4 +++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..ee7b5dc 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -67,11 +67,19 @@ namespace libvariant {
 		}
 	}
 
+	static const regex_t *GetGuessRegex() {
+		static GuessRegex guessregex;
+		return &guessregex.guessregex;
+	}
+
+	bool GuessIsString(const char *value) {
+		return regexec(GetGuessRegex(), value, 0, 0, 0) != 0;
+	}
+
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (regexec(GetGuessRegex(), value, MATCH_MAX, &match[0], 0) == 0) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..0e68609 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,8 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+
+	/// True if GuessScalar would take the value as a string.
+	bool GuessIsString(const char *value);
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..f36f6f5 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -303,7 +304,8 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		// text that would be read as another type, or as nothing, must be quoted
+		Emit(v, (*v && GuessIsString(v)) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From f01cfc360992ca2f724eaed92412eb1ed71c9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:41 +0000
Subject: [PATCH 017/122] fix: recognize .NaN and signed .Inf and .INF

---
 src/GuessScalar.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index ee7b5dc..0da38cc 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -22,8 +22,8 @@ namespace libvariant {
 					"|0o([0-7]+)" // int8 6
 					"|0x([0-9a-fA-F]+)" // int16 7
 					"|([-+]?((\\.[0-9]+)|([0-9]+(\\.[0-9]*)?))([eE][-+]?[0-9]+)?)" // float 8 (9,10,11,12,13)
-					"|([-+]?\\.inf|\\.Inf|\\.INF)" // inf 14
-					"|(\\.nan|\\.Nan|\\.NAN)" // nan 15
+					"|([-+]?(\\.inf|\\.Inf|\\.INF))" // inf 14 (15)
+					"|(\\.nan|\\.Nan|\\.NaN|\\.NAN)" // nan 16
 					")[[:space:]\n]*$";
 		enum {
 			MATCH_NULL = 2,
@@ -34,8 +34,8 @@ namespace libvariant {
 			MATCH_INT16 = 7,
 			MATCH_FLOAT = 8,
 			MATCH_INF = 14,
-			MATCH_NAN = 15,
-			MATCH_MAX = 16
+			MATCH_NAN = 16,
+			MATCH_MAX = 17
 		};
 
 		class GuessRegex {
-- 
2.43.0


From 5ab4d7b4461c509365629b63571811303dff0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:26 +0000
Subject: [PATCH 018/122] fix: do not use parser actions after they popped
 themselves

---
 src/VariantParsing.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 025b08c..75430be 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,18 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			done = true;
 			if (base) {
-				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
+				// Popping destroys this, and base may pop itself in turn
+				VariantBaseParserActions *b = base;
+				Variant value = result;
+				std::string name = anchor;
+				p->PopAction();
+				b->SetValue(p, value, (name.empty() ? 0 : name.c_str()));
 			} else {
 				state->result = result;
+				p->PopAction();
 			}
-			done = true;
-			p->PopAction();
 		}
 
 		int Level() {
-- 
2.43.0


From 8799755441f061214f823016467b0a0e743a78d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:43 +0000
Subject: [PATCH 019/122] fix: read the whole text of XML property list
 elements

Comments, CDATA sections and white space split the text of one element
into several values or lost it.  Empty data elements, which the emitter
writes for empty blobs, were refused.
---
 src/XMLPLISTParser.cc | 111 ++++++++++++++----------------------------
 src/XMLPLISTParser.h  |   4 +-
 2 files changed, 39 insertions(+), 76 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..dd8710e 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,11 +99,13 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+					case XML_READER_TYPE_CDATA:
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						ProcessText();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
-					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
@@ -112,8 +114,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
@@ -156,7 +156,7 @@ namespace libvariant {
 		case IntegerNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty interger elements";
@@ -166,7 +166,7 @@ namespace libvariant {
 		case FloatNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty real elements";
@@ -176,7 +176,7 @@ namespace libvariant {
 		case StringNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty string elements";
@@ -186,7 +186,7 @@ namespace libvariant {
 		case BlobNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty data elements";
@@ -206,7 +206,7 @@ namespace libvariant {
 					throw std::runtime_error(errorstr);
 				}
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			}
 			return true;
 		case ListNode:
@@ -221,73 +221,19 @@ namespace libvariant {
 		}
 	}
 
-	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+	void XMLPLISTParserImpl::ProcessText() {
 		switch (statestack.back()) {
-		case NullNode:
-		case RootNode:
-		case TrueNode:
-		case FalseNode:
-		case MapNode:
-		case ListNode:
-			return true;
 		case IntegerNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				intmax_t val;
-				val = strtoll(value, 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v;
-					v = strtoull(value, 0, 0);
-					action->Scalar(this, v, 0, 0);
-				} else {
-					action->Scalar(this, val, 0, 0);
-				}
-			}
-			return true;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
-			}
-			return true;
 		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
 		case BlobNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
-				void *data = 0;
-				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
-					err = true;
-					errorstr = "memory allocation failure";
-					throw std::bad_alloc();
-				}
-				unsigned len = Base64Decode(data, value, length);
-				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
-			}
-			return true;
 		case KeyNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
+			// The text of one element may come in several pieces
+			text += (const char*)xmlTextReaderConstValue(reader);
+			break;
 		default:
-			err = true;
-			errorstr = "Invalid libvariant XML PLIST parser state";
-			throw std::runtime_error(errorstr);
+			break;
 		}
-
 	}
 
 	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
@@ -304,22 +250,39 @@ namespace libvariant {
 			return false;
 		case IntegerNode:
 		case FloatNode:
-			if (empty) {
+			if (text.find_first_not_of(" \t\r\n") == std::string::npos) {
 				err = true;
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			if (nodetype == FloatNode) {
+				action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+			} else {
+				errno = 0;
+				intmax_t val = strtoll(text.c_str(), 0, 0);
+				if (val == LLONG_MAX && errno == ERANGE) {
+					uintmax_t v = strtoull(text.c_str(), 0, 0);
+					action->Scalar(this, v, 0, 0);
+				} else {
+					action->Scalar(this, val, 0, 0);
+				}
+			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
+			{
+				void *data = 0;
+				if (posix_memalign(&data, 64, Base64DecodeSize(text.length())) != 0) {
+					err = true;
+					errorstr = "memory allocation failure";
+					throw std::bad_alloc();
+				}
+				unsigned len = Base64Decode(data, text.c_str(), text.length());
+				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 			}
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			action->Scalar(this, text.c_str(), text.length(), 0, 0);
 			return false;
 		case RootNode:
 			action->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..2260c55 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,7 +59,7 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		bool ProcessText(ParserActions *action);
+		void ProcessText();
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
@@ -72,7 +72,7 @@ namespace libvariant {
 		xmlTextReaderPtr reader;
 		shared_ptr<ParserInput> input;
 		bool closed;
-		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From f08a655f13acffd5e3a222997f4fb79aba951ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:24 +0000
Subject: [PATCH 020/122] fix: read the last line of a bundle header without a
 newline

---
 src/BundleHdrParser.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..e7ceb02 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -19,10 +19,14 @@ namespace libvariant {
 		unsigned len = 0;
 		while (true) {
 			line = (const char *)input->GetPtr(len);
-			if (!line || line_len == len) {
+			if (!line || len == 0) {
 				line = 0;
 				return;
 			}
+			if (line_len == len) {
+				// End of input, the last line has no newline
+				return;
+			}
 			for (;line_len < len; ++line_len) {
 				if (line[line_len] == '\n') {
 					return;
@@ -33,7 +37,9 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		unsigned len = line_len + 1;
+		input->GetPtr(len);
+		input->Release(std::min(len, line_len + 1));
 		line = 0;
 		line_len = 0;
 	}
@@ -47,7 +53,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +71,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace(*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
-- 
2.43.0


From 3ea4e074f0b9db19f87f5e672823aa919b3eb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:24 +0000
Subject: [PATCH 021/122] fix: a bundle header list keeps its closing bar
 before blanks or a comment

---
 src/BundleHdrParser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index e7ceb02..e594e31 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -122,6 +122,7 @@ namespace libvariant {
 						// Remove whitespace from end of value
 						char *e = strchr(&value[0], '\0');
 						while (--e >= &value[0] && isspace(*e)) { *e = '\0'; }
+						value.resize(strlen(&value[0]) + 1);
 						state = VALUE;
 						TopAction()->Scalar(this, &key[0], strlen(&key[0]), 0, 0);
 						key.clear();
-- 
2.43.0


From e942a7365abb1a7b0b0c6bb7ac10539d80591238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:31 +0000
Subject: [PATCH 022/122] fix: a short read is not the end of a stream input

Read is documented to return 0 at the end.
---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From a1caaa2614cab5dca3ededf0f199764e25589e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:31 +0000
Subject: [PATCH 023/122] fix: do not look past the end of blank input when
 guessing the format

---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..48831da 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From 117e1b6589d36723718cbcd6fea6b2da2505544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:31 +0000
Subject: [PATCH 024/122] fix: clear errno before checking an integer for
 overflow

---
 src/GuessScalar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 0da38cc..f3bc6a4 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -88,6 +88,7 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
-- 
2.43.0


From e604242777c213cfd8b27fe02f365b2167715407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:23 +0000
Subject: [PATCH 025/122] fix: drop skipped text before a JSON document from
 the first number

Text ignored before the opening bracket stayed in the number buffer, so
the first number was wrong or read from uninitialized memory.
---
 lib/json/JSON_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 9e8441d..c408002 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -863,7 +863,7 @@ JSON_parser_char(JSON_parser jc, int next_char)
             break;
 
 /* { */ case -6:
-            parse_buffer_pop_back_char(jc);
+            parse_buffer_clear(jc);
             if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_OBJECT_BEGIN, NULL)) {
                 return false;
             }
@@ -875,7 +875,7 @@ JSON_parser_char(JSON_parser jc, int next_char)
             break;
 
 /* [ */ case -5:
-            parse_buffer_pop_back_char(jc);
+            parse_buffer_clear(jc);
             if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_ARRAY_BEGIN, NULL)) {
                 return false;
             }
-- 
2.43.0


From 0f16961752f23f919c629ee575f9984fa6223a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 026/122] fix: start a memory output without a length pointer
 at zero

---
 src/EmitterOutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..eca13b4 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -80,7 +80,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
@@ -88,7 +88,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From c6f73cd5e18d0320a0bd83630d47c11982676d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 027/122] fix: report failed writes to files and stream buffers

The emitters tried again forever or lost the data.
---
 src/EmitterOutput.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index eca13b4..5131186 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -41,11 +41,16 @@ namespace libvariant {
 	unsigned EmitterFileOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = fwrite(ptr, 1, len, file);
 		num_bytes += num;
+		if (num < len) {
+			throw std::runtime_error("Error writing to file");
+		}
 		return num;
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (fflush(file) != 0) {
+			throw std::runtime_error("Error writing to file");
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -72,11 +77,16 @@ namespace libvariant {
 	unsigned EmitterStreambufOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = streambuf->sputn((const char*)ptr, len);
 		num_bytes += num;
+		if (num == 0 && len > 0) {
+			throw std::runtime_error("Error writing to streambuf");
+		}
 		return num;
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Error writing to streambuf");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-- 
2.43.0


From 1c9f59ec2a984a60223f2bd6fc709b8701df28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 028/122] fix: do not throw from the destructors of JSON and
 bundle header emitters

---
 src/BundleHdrEmitter.cc | 3 ++-
 src/JSONEmitter.cc      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..a316709 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (const std::exception &) {}
 	}
 
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 7b2aa1a..3e437a2 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (const std::exception &) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
-- 
2.43.0


From c3fe3a5679c1caf8834bb706eb79285cd4af684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 029/122] fix: complete partial writes of YAML and survive
 failed ones

A failed write was lost, ended the process in the destructor or leaked
the emitter.
---
 src/YAMLEmitter.cc | 40 ++++++++++++++++++++++++++++++----------
 src/YAMLEmitter.h  |  3 +++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index f36f6f5..3f61a0e 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -30,11 +30,6 @@
 
 namespace libvariant {
 
-	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
-		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
-	}
-
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
 		"implicit_document_begin", "implicit_document_end", "indent", "width",
 		"precision", 0 };
@@ -175,13 +170,27 @@ namespace libvariant {
 	}
 
 
+	int YAMLEmitterImpl::WriteHandler(void *data, unsigned char *buffer, size_t size) {
+		YAMLEmitterImpl *impl = (YAMLEmitterImpl*)data;
+		// Exceptions must not pass through libyaml
+		try {
+			for (size_t num = 0; num < size;) {
+				num += impl->out->Write(buffer + num, size - num);
+			}
+		} catch (const std::exception &e) {
+			impl->write_error = e.what();
+			return 0;
+		}
+		return 1;
+	}
+
 	YAMLEmitterImpl::YAMLEmitterImpl(shared_ptr<EmitterOutput> o, Variant params)
 		:out(o), closed(false), in_document(false), conf(params)
 	{
 		if (yaml_emitter_initialize(&emitter) == 0) {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
-		yaml_emitter_set_output(&emitter, WriteHandler, out.get());
+		yaml_emitter_set_output(&emitter, WriteHandler, this);
 		if (conf.indent > 0) {
 			yaml_emitter_set_indent(&emitter, conf.indent);
 		}
@@ -197,7 +206,10 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (const std::exception &) {}
+		if (!closed) {
+			yaml_emitter_delete(&emitter);
+		}
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
@@ -359,8 +371,9 @@ namespace libvariant {
 	void YAMLEmitterImpl::Flush() {
 		CheckClosed();
 		if (yaml_emitter_flush(&emitter) == 0) {
-			throw std::runtime_error(emitter.problem);
+			HandleError();
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
@@ -403,10 +416,17 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
+		// The emitter owns the event from here, also on failure
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
-			throw std::runtime_error(emitter.problem);
+			HandleError();
+		}
+	}
+
+	void YAMLEmitterImpl::HandleError() {
+		if (!write_error.empty()) {
+			throw std::runtime_error(write_error);
 		}
+		throw std::runtime_error(emitter.problem ? emitter.problem : "YAMLEmitter error");
 	}
 
 }
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a01250d..80f15b4 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -139,6 +139,8 @@ namespace libvariant {
 	private:
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
+		void HandleError();
+		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
 
 		void CheckClosed() {
 			if (closed) {
@@ -163,6 +165,7 @@ namespace libvariant {
 		bool closed;
 		bool in_document;
 		Config conf;
+		std::string write_error;
 	};
 
 }
-- 
2.43.0


From aaaf796b015e1bde3281b6ecd54f0df7fa6ec344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:03 +0000
Subject: [PATCH 030/122] fix: complete partial writes of XML and survive
 failed ones

A failed write ended the process in the destructor.
---
 src/XMLPLISTEmitter.cc | 17 +++++++++++++++--
 src/XMLPLISTEmitter.h  |  4 ++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..ec1fe9c 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,25 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		// Exceptions must not pass through libxml
+		try {
+			for (int num = 0; num < len;) {
+				num += impl->output->Write(buffer + num, len - num);
+			}
+		} catch (const std::exception &e) {
+			impl->write_error = e.what();
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (const std::exception &e) {
+			impl->write_error = e.what();
+			return -1;
+		}
 		return 0;
 	}
 
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..87ccb96 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -75,6 +75,9 @@ namespace libvariant {
 		static int DoClose(void *ctx);
 	
 		void HandleError(const char *fnname) {
+			if (!write_error.empty()) {
+				throw std::runtime_error(write_error);
+			}
 			xmlErrorPtr error = xmlGetLastError();
 			if (error) {
 				throw std::runtime_error(error->message);
@@ -127,6 +130,7 @@ namespace libvariant {
 		unsigned precision;
 		bool closed;
 		std::deque<State> state;
+		std::string write_error;
 	};
 }
 #endif
-- 
2.43.0


From 51e4e425f4d7ccf5e7a01a44aa18406222a84a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:32 +0000
Subject: [PATCH 031/122] fix: do not throw through libxml when the input fails

The reader leaked its buffers.
---
 src/XMLPLISTParser.cc | 21 +++++++++++++++------
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index dd8710e..84ce50d 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -310,7 +310,10 @@ namespace libvariant {
 	void XMLPLISTParserImpl::HandleError(const char *fnname) {
 		xmlErrorPtr error = xmlGetLastError();
 		err = true;
-		if (error) {
+		if (!read_error.empty()) {
+			errorstr = read_error;
+			throw std::runtime_error(errorstr);
+		} else if (error) {
 			errorstr = error->message;
 			throw std::runtime_error(error->message);
 		} else {
@@ -322,11 +325,17 @@ namespace libvariant {
 	int XMLPLISTParserImpl::do_read(void *ctx, char *buffer, int len) {
 		XMLPLISTParserImpl *impl = (XMLPLISTParserImpl*)ctx;
 		unsigned l = len;
-		const void *ptr = impl->input->GetPtr(l);
-		if (!ptr) { return 0; }
-		l = std::min<unsigned>(len, l);
-		memcpy(buffer, ptr, l);
-		impl->input->Release(l);
+		// Exceptions must not pass through libxml
+		try {
+			const void *ptr = impl->input->GetPtr(l);
+			if (!ptr) { return 0; }
+			l = std::min<unsigned>(len, l);
+			memcpy(buffer, ptr, l);
+			impl->input->Release(l);
+		} catch (const std::exception &e) {
+			impl->read_error = e.what();
+			return -1;
+		}
 		return l;
 	}
 
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 2260c55..2338cdc 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -75,6 +75,7 @@ namespace libvariant {
 		std::string text;
 		bool err;
 		std::string errorstr;
+		std::string read_error;
 	};
 }
 #endif
-- 
2.43.0


From 0965e0e884405f42edd1a034f4fb368ef5a576f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:32 +0000
Subject: [PATCH 032/122] fix: check the error state of a file after flushing
 it

---
 src/EmitterOutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5131186..9480368 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -48,7 +48,7 @@ namespace libvariant {
 	}
 
 	void EmitterFileOutput::Flush() {
-		if (fflush(file) != 0) {
+		if (fflush(file) != 0 || ferror(file)) {
 			throw std::runtime_error("Error writing to file");
 		}
    	}
-- 
2.43.0


From 1c3937f4bb0e4d264173d300e19b572a7a9a5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:32 +0000
Subject: [PATCH 033/122] fix: do not throw through libyaml when the input
 fails

The parser leaked its buffers.
---
 src/YAMLParser.cc | 26 ++++++++++++++++++--------
 src/YAMLParser.h  |  1 +
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..a0ee916 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -32,14 +32,20 @@ namespace libvariant {
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
 		unsigned len = size;
-		const void *ptr = impl->input->GetPtr(len);
-		if (!ptr) {
-			*sizein = 0;
-		   	return 1;
-	   	}
-		*sizein = std::min<unsigned>(size, len);
-		memcpy(buffer, ptr, *sizein);
-		impl->input->Release(*sizein);
+		// Exceptions must not pass through libyaml
+		try {
+			const void *ptr = impl->input->GetPtr(len);
+			if (!ptr) {
+				*sizein = 0;
+				return 1;
+			}
+			*sizein = std::min<unsigned>(size, len);
+			memcpy(buffer, ptr, *sizein);
+			impl->input->Release(*sizein);
+		} catch (const std::exception &e) {
+			impl->read_error = e.what();
+			return 0;
+		}
 		return 1;
 	}
 
@@ -93,6 +99,10 @@ namespace libvariant {
 			yaml_event_t event;
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
+				if (!read_error.empty()) {
+					errorstr = read_error;
+					throw std::runtime_error(errorstr);
+				}
 				std::ostringstream oss;
 				oss << "Error parsing YAML: " << parser.problem << " "
 					<< (parser.context ? parser.context : "<NULL context>")
diff --git a/src/YAMLParser.h b/src/YAMLParser.h
index a1d8f48..1622c06 100644
--- a/src/YAMLParser.h
+++ b/src/YAMLParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		bool eof;
 		bool err;
 		std::string errorstr;
+		std::string read_error;
 	};
 
 }
-- 
2.43.0


From 4550a951b1dad17e51ccc106b7a0101e97332e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:50 +0000
Subject: [PATCH 034/122] fix: property lists must not include other files
 through entities

A property list could declare an external entity and have the contents of
any local file read into its text. Internal text entities are still
expanded; external ones are now refused.
---
 src/XMLPLISTParser.cc | 37 +++++++++++++++++++++++++++++++------
 src/XMLPLISTParser.h  |  3 ++-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 84ce50d..5d38a9e 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -102,11 +102,13 @@ namespace libvariant {
 					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_WHITESPACE:
 					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
-						ProcessText();
+						AddText((const char*)xmlTextReaderConstValue(reader));
+						break;
+					case XML_READER_TYPE_ENTITY_REFERENCE:
+						ProcessEntity(name);
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
-					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
 					case XML_READER_TYPE_COMMENT:
@@ -221,7 +223,7 @@ namespace libvariant {
 		}
 	}
 
-	void XMLPLISTParserImpl::ProcessText() {
+	void XMLPLISTParserImpl::AddText(const char *value) {
 		switch (statestack.back()) {
 		case IntegerNode:
 		case FloatNode:
@@ -229,13 +231,36 @@ namespace libvariant {
 		case BlobNode:
 		case KeyNode:
 			// The text of one element may come in several pieces
-			text += (const char*)xmlTextReaderConstValue(reader);
+			text += value;
 			break;
 		default:
 			break;
 		}
 	}
 
+	void XMLPLISTParserImpl::ProcessEntity(const char *name) {
+		// The input must not be able to include other files
+		xmlNodePtr node = xmlTextReaderCurrentNode(reader);
+		xmlEntityPtr entity = xmlGetDocEntity(node->doc, (const xmlChar*)name);
+		if (!entity || entity->etype != XML_INTERNAL_GENERAL_ENTITY) {
+			err = true;
+			errorstr = "libvariant XML PLIST parser does not read external entities";
+			throw std::runtime_error(errorstr);
+		}
+		for (xmlNodePtr n = entity->children; n; n = n->next) {
+			if (n->type == XML_ELEMENT_NODE) {
+				err = true;
+				errorstr = "libvariant XML PLIST parser does not support elements in entities";
+				throw std::runtime_error(errorstr);
+			}
+		}
+		xmlChar *content = xmlNodeGetContent(node);
+		if (content) {
+			AddText((const char*)content);
+			xmlFree(content);
+		}
+	}
+
 	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
 		if (statestack.back() != nodetype) {
 			err = true;
@@ -349,7 +374,7 @@ namespace libvariant {
 		: input(in), closed(false), err(false)
    	{
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
@@ -383,7 +408,7 @@ namespace libvariant {
 		xmlFreeTextReader(reader);
 		reader = 0;
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 2338cdc..de528e9 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,7 +59,8 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		void ProcessText();
+		void AddText(const char *value);
+		void ProcessEntity(const char *name);
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
-- 
2.43.0


From 432a1c24d72f9abec527b5d551647c806972ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:12 +0000
Subject: [PATCH 035/122] fix: do not look past the end of the data for the end
 of a payload header

---
 src/Payload.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..ff5eaf4 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -215,9 +215,8 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len) {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
-
 			}
 			len = std::min(len, scanned_to);
 		}
-- 
2.43.0


From 4b854779c641fd57924acde4a168b7e6c5b9debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:12 +0000
Subject: [PATCH 036/122] fix: writing a payload length into a list ends and
 fills the gap before it

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index ff5eaf4..6b6a522 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && index <= len_i->AsUnsigned()) {
+				while (index < len_i->AsUnsigned()) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From 57d242d273771097c07fee3a441b7ef80d7b6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:12 +0000
Subject: [PATCH 037/122] fix: complete a partial write of the byte that ends a
 payload header

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 6b6a522..8a03f03 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,7 +175,7 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
+		while (written < buf.size()) {
 			written += out->Write(&buf[written], buf.size() - written);
 		}
 
-- 
2.43.0


From 02032a977e0a000b05ea517ab460b90a173fb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:12 +0000
Subject: [PATCH 038/122] fix: flush a payload header that is written without
 its payload

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 8a03f03..54bb8cb 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -190,8 +190,8 @@ namespace libvariant {
 					to_write -= num;
 				}
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
-- 
2.43.0


From 96db369fe60e1e5282499418bc855623217a7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 039/122] fix: only accept list indices in JSON pointers as the
 standard writes them

---
 src/Extensions.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..d3eebe1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -25,6 +25,7 @@
 #include <Variant/Extensions.h>
 #include <Variant/Path.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <ctype.h>
 #include <set>
 
@@ -330,14 +331,12 @@ namespace libvariant {
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
-		const char *b = str.c_str();
-		char *e = 0;
-		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
-		index = v;
-		return true;
+		// RFC6901: digits only and no leading zeros
+		if (str.empty() || (str[0] == '0' && str.size() > 1)) { return false; }
+		if (str.find_first_not_of("0123456789") != std::string::npos) { return false; }
+		errno = 0;
+		index = strtoull(str.c_str(), 0, 10);
+		return errno == 0;
 	}
 
 	VariantRef JSONPointerOp(const std::string &pointer, VariantRef v, Operation_t &op) {
-- 
2.43.0


From 649036043d2a683419af1ae16cf2545189e9703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 040/122] fix: do not add, remove or read list elements past
 the end by JSON pointer

---
 src/Extensions.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d3eebe1..3826934 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -431,6 +431,9 @@ namespace libvariant {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
 			op.path.push_back(index);
+			if (index > v.Size() || (index == v.Size() && !(is_last && op.op == OP_ADD))) {
+				throw std::runtime_error("Attempting to reference past the end of an array");
+			}
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-- 
2.43.0


From 8e475e55473cf171b77e65bb8446550ad026bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 041/122] fix: removing a list element by JSON pointer

---
 src/Extensions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3826934..c3c3f2f 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -445,7 +445,7 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
+					op.value = v.At(index);
 					v.Erase(index);
 					op.success = true;
 					return v.At(index);
-- 
2.43.0


From 01d370245698ae0c0a084df1fa36785677dc8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 042/122] fix: undo list operations of a failed JSON patch

---
 src/Extensions.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index c3c3f2f..6b7884f 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -311,6 +311,7 @@ namespace libvariant {
 	enum Operations_e {
 		OP_ADD,
 		OP_REMOVE,
+		OP_REPLACE,
 		OP_TEST,
 		OP_GET
 	};
@@ -362,6 +363,8 @@ namespace libvariant {
 				op.value = v;
 				op.success = true;
 				return v;
+			default:
+				break;
 			}
 		}
 		if (pointer[0] != '/') {
@@ -412,6 +415,8 @@ namespace libvariant {
 						op.success = true;
 						return ret;
 					}
+				default:
+					break;
 				}
 			} else {
 				return JSONPointerOp(pointer.substr(nindex), v.At(component), op);
@@ -422,7 +427,7 @@ namespace libvariant {
 				if (op.op == OP_ADD) {
 					v.Append(op.value);
 					op.success = true;
-					return v.At(v.Size());
+					return v.At(v.Size() - 1);
 				}
 				throw std::runtime_error("Attempting to reference past the end of an array");
 			}
@@ -437,10 +442,6 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
-					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
 					return v.At(index);
@@ -462,6 +463,8 @@ namespace libvariant {
 						op.success = true;
 						return ret;
 					}
+				default:
+					break;
 				}
 			} else {
 				return JSONPointerOp(pointer.substr(nindex), v.At(index), op);
@@ -617,6 +620,13 @@ namespace libvariant {
 			case OP_REMOVE:
 				v.ErasePath(p.path);
 				break;
+			case OP_REPLACE:
+				if (p.path.empty()) {
+					v = p.value;
+				} else {
+					v.SetPath(p.path, p.value);
+				}
+				break;
 			case OP_TEST:
 			case OP_GET:
 				throw std::runtime_error("Unable to perform operation here");
@@ -653,7 +663,7 @@ namespace libvariant {
 				} else {
 					return false;
 				}
-				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REPLACE, op.path, op.value));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From 7fb5d9d520169f87c757999d2e9aeec7849b0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 043/122] fix: put a list element back where it was when moving
 it fails

---
 src/Extensions.cc | 100 +++++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 6b7884f..e8697f6 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -476,6 +476,53 @@ namespace libvariant {
 		throw std::runtime_error(oss.str());
 	}
 
+	struct Patch_t {
+		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
+		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
+		Operations_e op;
+		Path path;
+		Variant value;
+	};
+
+	void JSONPatchUndo(VariantRef v, std::deque<Patch_t> *undo) {
+		while (!undo->empty()) {
+			const Patch_t &p = undo->back();
+			switch (p.op) {
+			case OP_ADD:
+				{
+					Path path = p.path;
+					if (path.size() > 0) {
+						PathElement elem = path.back();
+						path.pop_back();
+						VariantRef r = v.AtPath(path);
+						if (r.IsList()) {
+							r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), p.value);
+						} else {
+							r.Set(elem.AsString(), p.value);
+						}
+					} else {
+						v = p.value;
+					}
+				}
+				break;
+			case OP_REMOVE:
+				v.ErasePath(p.path);
+				break;
+			case OP_REPLACE:
+				if (p.path.empty()) {
+					v = p.value;
+				} else {
+					v.SetPath(p.path, p.value);
+				}
+				break;
+			case OP_TEST:
+			case OP_GET:
+				throw std::runtime_error("Unable to perform operation here");
+			}
+			undo->pop_back();
+		}
+	}
+
 	void JSONPointerAdd(const std::string &pointer, VariantRef v, Variant data) {
 		Operation_t op(OP_ADD, pointer);
 		op.value = data;
@@ -531,8 +578,9 @@ namespace libvariant {
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
 			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+				std::deque<Patch_t> undo(1, Patch_t(OP_ADD, path, data));
+				JSONPatchUndo(v, &undo);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
@@ -588,54 +636,6 @@ namespace libvariant {
 		return ret.str();
 	}
 
-	struct Patch_t {
-		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
-		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
-		Operations_e op;
-		Path path;
-		Variant value;
-	};
-
-	void JSONPatchUndo(VariantRef v, std::deque<Patch_t> *undo) {
-		while (!undo->empty()) {
-			const Patch_t &p = undo->back();
-			switch (p.op) {
-			case OP_ADD:
-				{
-					Path path = p.path;
-					if (path.size() > 0) {
-						PathElement elem = path.back();
-						path.pop_back();
-						VariantRef r = v.AtPath(path);
-						if (r.IsList()) {
-							r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), p.value);
-						} else {
-							r.Set(elem.AsString(), p.value);
-						}
-					} else {
-						v = p.value;
-					}
-				}
-				break;
-			case OP_REMOVE:
-				v.ErasePath(p.path);
-				break;
-			case OP_REPLACE:
-				if (p.path.empty()) {
-					v = p.value;
-				} else {
-					v.SetPath(p.path, p.value);
-				}
-				break;
-			case OP_TEST:
-			case OP_GET:
-				throw std::runtime_error("Unable to perform operation here");
-			}
-			undo->pop_back();
-		}
-	}
-
-
 	bool JSONPatchOp(VariantRef v, const Variant &diff, std::deque<Patch_t> *undo) {
 		std::string oper = diff.Get("op").AsString();
 		Operation_t op;
-- 
2.43.0


From b1ba9d11fec64a04a69cbb9d6da93463de1d5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 044/122] fix: a patched document must not share values with
 the patch or with itself

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index e8697f6..8b703d6 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -642,7 +642,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -659,7 +659,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
@@ -682,7 +682,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From 55b24bcf6c32b28a96414479fd6b6913c551779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 045/122] fix: escape keys when forming a JSON pointer

---
 src/Extensions.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 8b703d6..d780f38 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -630,7 +630,15 @@ namespace libvariant {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				std::string key = i->AsString();
+				ret << "/";
+				for (std::string::iterator c(key.begin()), ce(key.end()); c != ce; ++c) {
+					switch (*c) {
+					case '~': ret << "~0"; break;
+					case '/': ret << "~1"; break;
+					default: ret << *c; break;
+					}
+				}
 			}
 		}
 		return ret.str();
-- 
2.43.0


From 7d162aa4d880c4f32c30ade73c9c45a374b1c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 046/122] fix: a JSON diff of a list that shrinks removes the
 elements from the end

---
 src/Extensions.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d780f38..3dd8b4e 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -770,10 +770,16 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
+					uintmax_t len = dst.Size();
+					// Remove from the end, removing moves what follows
+					for (uintmax_t i = src.Size(); i > len; --i) {
+						path.push_back(PathElement(i - 1));
+						JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+						path.pop_back();
+					}
 					for (uintmax_t i = 0; i < len; ++i) {
 						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+						JSONDiffRef(src.At(i), dst.At(i), diff, path);
 						path.pop_back();
 					}
 				}
-- 
2.43.0


From 6e3a47214c29d4596365f90197dbbde8f80bbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:47 +0000
Subject: [PATCH 047/122] fix: refuse JSON pointers with an invalid escape

---
 src/Extensions.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3dd8b4e..53cb1c7 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -287,17 +287,14 @@ namespace libvariant {
 			switch (*c) {
 			case '~':
 				++c;
-				if (c != e) {
-					if (*c == '0') {
-						ret.append("~");
-					} else if (*c == '1') {
-						ret.append("/");
-					} else {
-						ret.append("~");
-						ret.append(c, 1);
-					}
-					++c;
+				if (c != e && *c == '0') {
+					ret.append("~");
+				} else if (c != e && *c == '1') {
+					ret.append("/");
+				} else {
+					throw std::runtime_error("Invalid escape in JSON Pointer");
 				}
+				++c;
 				break;
 			default:
 				ret.append(c, 1);
-- 
2.43.0


From aaff778a8e5c8f5fbf2c6675330db4cdbe5054c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:26 +0000
Subject: [PATCH 048/122] fix: report a schema whose multipleOf is zero instead
 of dividing by it

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..1d4edcf 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || !(multipleof > 0)) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From e80fd91acbfb651518390acc7c6e985816d012cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:26 +0000
Subject: [PATCH 049/122] fix: negative fractions are not multiples of
 everything

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 1d4edcf..8c18744 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -710,7 +710,7 @@ namespace libvariant {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
 			// So, we need to check if it is within epsilon of 0
-			long double m = mod.AsLongDouble();
+			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
 			long double tolerance = FLOAT_TOLERANCE;
 
-- 
2.43.0


From 74512b752df57b5d41cc826c45c168ac9d304f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:26 +0000
Subject: [PATCH 050/122] fix: adding the defaults of a recursive schema ends

---
 src/Schema.cc | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8c18744..45ee45c 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -31,6 +31,7 @@
 #include <string.h>
 #include <strings.h>
 #include <limits>
+#include <set>
 #include <cmath>
 #include <stdlib.h>
 
@@ -840,20 +841,29 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	typedef std::set<std::string> RefSet;
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, RefSet refs);
+
+	// A recursive schema may only be followed as far as there is data
+	void AddSchemaChildDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const RefSet &refs) {
+		AddSchemaDefaultsImpl(schema, data, loader, data.Exists() ? RefSet() : refs);
+	}
+
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, const RefSet &refs) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, refs);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, RefSet refs) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			std::string ref = schema["$ref"].AsString();
+			if (!refs.insert(ref).second) { return; }
+			AddSchemaDefaultsImpl(loader->GetSchema(ref), data, loader, refs);
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -863,22 +873,22 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaChildDefaultsImpl(i->second, data.At(i->first), loader, refs);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaChildDefaultsImpl(schema["items"][i], data[i], loader, refs);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaChildDefaultsImpl(schema["items"], data[0], loader, refs);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -890,7 +900,7 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		lloader.AddSchema("", schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		AddSchemaDefaultsImpl(schema, data, &lloader, RefSet());
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 0f293cd8ecf26ff380b566a0e248a5bf8d62ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:26 +0000
Subject: [PATCH 051/122] fix: add the defaults of list items to every element

---
 src/Schema.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 45ee45c..2b5d3cd 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -883,7 +883,10 @@ namespace libvariant {
 					AddSchemaChildDefaultsImpl(schema["items"][i], data[i], loader, refs);
 				}
 			} else {
-				AddSchemaChildDefaultsImpl(schema["items"], data[0], loader, refs);
+				unsigned i = 0;
+				do {
+					AddSchemaChildDefaultsImpl(schema["items"], data[i], loader, refs);
+				} while (data.Exists() && ++i < data.Size());
 			}
 		}
 		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs);
-- 
2.43.0


From a832e79f57047e55a717611f6d6c339574707f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:52 +0000
Subject: [PATCH 052/122] fix: reading a float beyond the integer range is
 defined

---
 src/Variant.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 13e9123..b51aef8 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -27,6 +27,7 @@
 #include <math.h>
 #include <assert.h>
 #include <algorithm>
+#include <limits>
 
 template<typename T>
 class my_modulus {
@@ -964,11 +965,18 @@ namespace libvariant {
 		long double Float::AsLongDouble(const Data *that) const
 		{ return that->f; }
 
-		uintmax_t Float::AsUnsigned(const Data *that) const
-		{ return (uintmax_t)that->f; }
+		uintmax_t Float::AsUnsigned(const Data *that) const {
+			if (!(that->f >= 0)) { return (uintmax_t)AsInt(that); }
+			if (that->f >= ldexp(1.0, 64)) { return std::numeric_limits<uintmax_t>::max(); }
+			return (uintmax_t)that->f;
+		}
 
-		intmax_t Float::AsInt(const Data *that) const
-		{ return (intmax_t)that->f; }
+		intmax_t Float::AsInt(const Data *that) const {
+			if (isnan(that->f)) { return 0; }
+			if (that->f >= ldexp(1.0, 63)) { return std::numeric_limits<intmax_t>::max(); }
+			if (that->f < -ldexp(1.0, 63)) { return std::numeric_limits<intmax_t>::min(); }
+			return (intmax_t)that->f;
+		}
 
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
-- 
2.43.0


From cda7d690a03d8428f9c9bd47567c4c273d63d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:46 +0000
Subject: [PATCH 053/122] fix: limit the nesting of JSON so that a document can
 be destroyed

A text of a hundred thousand opening brackets ended the process when the
document read from it was destroyed.
---
 src/JSONParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..daf2d95 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -126,7 +126,8 @@ namespace libvariant {
 		init_JSON_config(&config);
 		config.callback = StaticCallback;
 		config.callback_ctx = this;
-		config.depth = -1;
+		// A document is destroyed recursively, leave it a stack to do so
+		config.depth = 10000;
 		config.allow_comments = 1;
 		parser = new_JSON_parser(&config);
 	}
-- 
2.43.0


From 6172e9c2a79745654bd9d4c4cd7441bfdd80a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:54 +0000
Subject: [PATCH 054/122] fix: limit the nesting of YAML as for JSON

---
 src/YAMLParser.cc | 16 +++++++++++++++-
 src/YAMLParser.h  |  2 ++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index a0ee916..d53c622 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -27,6 +27,9 @@
 #include <stdlib.h>
 #include <sstream>
 
+// A document is destroyed recursively, leave it a stack to do so
+#define MAX_DEPTH 10000
+
 namespace libvariant {
 
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
@@ -50,7 +53,7 @@ namespace libvariant {
 	}
 
 	YAMLParserImpl::YAMLParserImpl(shared_ptr<ParserInput> in)
-		: input(in), eof(false), err(false)
+		: input(in), depth(0), eof(false), err(false)
 	{
 		yaml_parser_initialize(&parser);
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
@@ -93,6 +96,12 @@ namespace libvariant {
 		}
 	}
 
+	void YAMLParserImpl::IncrDepth() {
+		if (++depth > MAX_DEPTH) {
+			throw std::runtime_error("Error parsing YAML: nested too deeply");
+		}
+	}
+
 	int YAMLParserImpl::Run() {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
@@ -148,21 +157,25 @@ namespace libvariant {
 
 				/** A SEQUENCE-START event. */
 				case YAML_SEQUENCE_START_EVENT:
+					IncrDepth();
 					TopAction()->BeginList(this, -1, (const char*)event.data.sequence_start.anchor,
 							(const char*)event.data.sequence_start.tag);
 					break;
 				/** A SEQUENCE-END event. */
 				case YAML_SEQUENCE_END_EVENT:
+					--depth;
 					TopAction()->EndList(this);
 					break;
 
 				/** A MAPPING-START event. */
 				case YAML_MAPPING_START_EVENT:
+					IncrDepth();
 					TopAction()->BeginMap(this, -1, (const char*)event.data.mapping_start.anchor,
 							(const char*)event.data.mapping_start.tag);
 					break;
 				/** A MAPPING-END event. */
 				case YAML_MAPPING_END_EVENT:
+					--depth;
 					TopAction()->EndMap(this);
 					break;
 
@@ -195,6 +208,7 @@ namespace libvariant {
 	}
 
 	void YAMLParserImpl::Reset() {
+		depth = 0;
 		eof = false;
 		err = false;
 		yaml_parser_delete(&parser);
diff --git a/src/YAMLParser.h b/src/YAMLParser.h
index 1622c06..8a508ba 100644
--- a/src/YAMLParser.h
+++ b/src/YAMLParser.h
@@ -49,8 +49,10 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		static int ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein);
+		void IncrDepth();
 		yaml_parser_t parser;
 		shared_ptr<ParserInput> input;
+		unsigned depth;
 		bool eof;
 		bool err;
 		std::string errorstr;
-- 
2.43.0


From 2d65a1e7719c6c241440b9d004534430d042d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:05 +0000
Subject: [PATCH 055/122] fix: removing a list element by JSON pointer moves
 the following ones

---
 src/Extensions.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 53cb1c7..1a65fc5 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -444,7 +444,8 @@ namespace libvariant {
 					return v.At(index);
 				case OP_REMOVE:
 					op.value = v.At(index);
-					v.Erase(index);
+					// Erase would leave a null, RFC6902 moves what follows
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
@@ -503,7 +504,19 @@ namespace libvariant {
 				}
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				{
+					Path path = p.path;
+					if (path.size() > 0) {
+						PathElement elem = path.back();
+						path.pop_back();
+						VariantRef r = v.AtPath(path);
+						if (r.IsList()) {
+							r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+						} else {
+							r.Erase(elem.AsString());
+						}
+					}
+				}
 				break;
 			case OP_REPLACE:
 				if (p.path.empty()) {
-- 
2.43.0


From a8ddbe93de7661385fd26a4de4cd0b76d55efc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:33 +0000
Subject: [PATCH 056/122] fix: nothing of a property list header is written
 after its payload

---
 src/Payload.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 54bb8cb..b6fb0c6 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -168,7 +168,8 @@ namespace libvariant {
 		emitter.BeginDocument();
 		PayloadEmit(v, lpath.begin(), true, dpath.begin(), true, state);
 		emitter.EndDocument();
-		emitter.Flush();
+		// Nothing of the header may be written after the payload
+		emitter.Close();
 
 		// plus 1 because we want a payload to be aligned when adding 1 null byte
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
-- 
2.43.0


From 213b6391f86d0cf39834a1ac2f5c215fc5d25717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:21 +0000
Subject: [PATCH 057/122] fix: loading all documents ends with the input

An empty stream gave one null document, and a property list gave null
documents without end. The iterator now asks whether a document was
complete instead of looking for a null value.
---
 src/VariantParsing.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 75430be..8a344a9 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -210,12 +210,21 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
-	Variant ParseVariant(Parser &p) {
+	/** Parse one document into v, returns false if the input ended before
+	 * the document was complete. */
+	static bool ParseDocument(Parser &p, Variant &v) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
 		while (p.Run() == 0 && !actions->done);
-		return state.result;
+		v = state.result;
+		return actions->done;
+	}
+
+	Variant ParseVariant(Parser &p) {
+		Variant v;
+		ParseDocument(p, v);
+		return v;
 	}
 
 	Variant Deserialize(const std::string &str, SerializeType type) {
@@ -326,17 +335,16 @@ namespace libvariant {
 
 	void LoadAllIterator::Next() {
 		if (!value) {
-			if (!impl->parser.Done()) {
-				value = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
+			Variant v;
+			if (!impl->parser.Done() && ParseDocument(impl->parser, v)) {
+				value = shared_ptr<Value>(new Value(v));
 			}
 		} else if (value->next) {
 			value = value->next;
 		} else {
-			if (!impl->parser.Done()) {
-				value->next = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-				if (impl->parser.Done() && value->next->v.IsNull()) {
-					value->next.reset();
-				}
+			Variant v;
+			if (!impl->parser.Done() && ParseDocument(impl->parser, v)) {
+				value->next = shared_ptr<Value>(new Value(v));
 			}
 			value = value->next;
 		}
-- 
2.43.0


From 043aec6f18266a8ea768b114a223eb6e2aad1e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:46 +0000
Subject: [PATCH 058/122] fix: a recursive update adds null values as null

Updating with a null under a key the base does not have left an empty
map there, which is in neither document.
---
 src/Extensions.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 1a65fc5..143d102 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -269,7 +269,11 @@ namespace libvariant {
 		case Variant::MapType:
 			if ( !base.Exists() || base.IsMap() ) {
 				for ( Variant::ConstMapIterator i(update.MapBegin()), e(update.MapEnd()); i != e; ++i ) {
-					RUpdate(base.At( i->first, Variant::MapType ), update[ i->first ]);
+					if ( base.Exists() && base.Contains(i->first) ) {
+						RUpdate(base[ i->first ], i->second);
+					} else {
+						base[ i->first ] = i->second.Copy();
+					}
 				}
 				break;
 			}
-- 
2.43.0


From 4a57fb2fd1814d8955033e1699a676ddea46ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:44 +0000
Subject: [PATCH 059/122] fix: a failed parse leaves nothing on the parser's
 action stack

The actions of an unfinished document stayed on the parser and pointed
to a state object that no longer existed.
---
 src/VariantParsing.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 8a344a9..3a48ea9 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -210,13 +210,26 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
+	/** Take the actions of an unfinished document off the parser, they point
+	 * to a ParserState that is about to go away. */
+	static void RemoveActions(Parser &p, const shared_ptr<VariantBaseParserActions> &actions) {
+		if (actions->done) { return; }
+		while (p.PopAction() != actions);
+	}
+
 	/** Parse one document into v, returns false if the input ended before
 	 * the document was complete. */
 	static bool ParseDocument(Parser &p, Variant &v) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			RemoveActions(p, actions);
+			throw;
+		}
+		RemoveActions(p, actions);
 		v = state.result;
 		return actions->done;
 	}
-- 
2.43.0


From 955d82ac47358b5d1b10169a6aee0dbbfd46da10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:02 +0000
Subject: [PATCH 060/122] fix: a reference to something that is not a schema is
 a schema error

It was treated like the empty schema, which accepts everything.
---
 src/Schema.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 2b5d3cd..76cdd00 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -814,7 +814,12 @@ namespace libvariant {
 		// Empty schema always validates
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			SchemaValidate(ctx, ctx.loader->GetSchema(schema["$ref"].AsString()), data);
+			Variant target = ctx.loader->GetSchema(schema["$ref"].AsString());
+			if (!target.IsMap() && !target.IsNull()) {
+				ctx.AddSchemaError("\"$ref\" does not lead to a schema: " + schema["$ref"].AsString());
+				throw StopValidation();
+			}
+			SchemaValidate(ctx, target, data);
 		}
 		ValidateBasic(ctx, schema, data);
 		ValidateNumeric(ctx, schema, data);
-- 
2.43.0


From a155321214a56f197fe2e858d2333d8504e55323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:09 +0000
Subject: [PATCH 061/122] fix: not, anyOf and oneOf report schema errors

A schema that cannot be evaluated counted as one that does not match, so
a reference loop below "not" accepted every document.
---
 src/Schema.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 76cdd00..bd95ad4 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -72,6 +72,15 @@ namespace libvariant {
 		void AddSchemaError(const std::string &m) { AddSchemaError(SchemaError(m, schema_path)); }
 		void AddSchemaError(const SchemaError &err) { result.AddSchemaError(err); }
 
+		// A schema that cannot be evaluated neither matches nor fails to match
+		void StopOnSchemaErrors(const SchemaResult &sub) {
+			if (!sub.SchemaErrors()) { return; }
+			for (unsigned i = 0; i < sub.GetSchemaErrors().size(); ++i) {
+				AddSchemaError(sub.GetSchemaErrors()[i]);
+			}
+			throw StopValidation();
+		}
+
 		void IncrDepth() {
 			depth += 1;
 			if (depth > RECURSION_LIMIT) {
@@ -119,9 +128,8 @@ namespace libvariant {
 		SchemaContext notctx(ctx);
 		try {
 			SchemaValidate(notctx, schema["not"], data);
-		} catch (const StopValidation &) {
-			return;
-		}
+		} catch (const StopValidation &) {}
+		ctx.StopOnSchemaErrors(notctx.result);
 		if (notctx.result.Error()) { return; }
 		ctx.AddError("Data matches schema from \"not\"");
 	}
@@ -147,6 +155,7 @@ namespace libvariant {
 				SchemaValidate(subctx, *i, data);
 				if (!subctx.result.Error()) { num_validates++; }
 			} catch (const StopValidation &) {}
+			ctx.StopOnSchemaErrors(subctx.result);
 			if (subctx.result.Error()) { error.AddSubError(subctx.result); }
 			if (num_validates == 1) {
 				validIndex = index;
@@ -181,6 +190,7 @@ namespace libvariant {
 				SchemaValidate(subctx, *i, data);
 				if (!subctx.result.Error()) { return; }
 			} catch (const StopValidation &) {}
+			ctx.StopOnSchemaErrors(subctx.result);
 			error.AddSubError(subctx.result);
 		}
 		ctx.AddError(error);
-- 
2.43.0


From 2f3b448a73dfcb9c687fb2b94700816b2b06b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:51 +0000
Subject: [PATCH 062/122] fix: minLength and maxLength count characters, not
 bytes

---
 src/Schema.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index bd95ad4..695811a 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -614,14 +614,23 @@ namespace libvariant {
 		regfree(&pattern);
 	}
 
+	// Number of characters in UTF-8 encoded text
+	unsigned CharacterCount(const std::string &s) {
+		unsigned n = 0;
+		for (size_t i = 0; i < s.size(); ++i) {
+			if ((s[i] & 0xC0) != 0x80) { ++n; }
+		}
+		return n;
+	}
+
 	void ValidateStringLength(SchemaContext &ctx, Variant schema, Variant data) {
+		unsigned length = CharacterCount(data.AsString());
 		if (schema.Contains("minLength")) {
 			AutoSchemaPath spath(ctx, "minLength");
 			if (schema["minLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() < schema["minLength"].AsUnsigned()) {
+				if (length < schema["minLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too short (" << data.Size() << " chars), minimum "
+					oss << "String is too short (" << length << " chars), minimum "
 						<< schema["minLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
@@ -632,10 +641,9 @@ namespace libvariant {
 		if (schema.Contains("maxLength")) {
 			AutoSchemaPath spath(ctx, "maxLength");
 			if (schema["maxLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() > schema["maxLength"].AsUnsigned()) {
+				if (length > schema["maxLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too long (" << data.Size() << " chars), maximum "
+					oss << "String is too long (" << length << " chars), maximum "
 						<< schema["maxLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
-- 
2.43.0


From 1a414025454d4691f8a698de57f7138ec323c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:31 +0000
Subject: [PATCH 063/122] fix: a schema with an id can refer to its own parts

Its local references became references to its id, where it was not found.
---
 src/SchemaLoader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..6d3df53 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -153,6 +153,11 @@ namespace libvariant {
 		std::map<std::string, Variant> m;
 		m[luri] = schema;
 		NormSchema(schema, luri);
+		if (luri.empty() && schema.IsMap() && schema.Contains("id") && schema["id"].IsString()) {
+			// A schema without an address is known by its id
+			luri = ResolveURI(schema["id"].AsString(), "");
+			m[luri] = schema;
+		}
 		SearchForTrustedSchemas(m, schema, luri);
 		schemas.insert(m.begin(), m.end());
 		return m;
-- 
2.43.0


From 8b8b58c61a0092f735b8c7f5034f15e28372d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:41 +0000
Subject: [PATCH 064/122] fix: validating with or registering a schema leaves
 it as it was

References and ids were resolved in place, in the caller's schema.
---
 src/Schema.cc       | 4 ++--
 src/SchemaLoader.cc | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 695811a..8be4cbf 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -856,7 +856,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		schema = lloader.AddSchema("", schema)[""];
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
@@ -925,7 +925,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		schema = lloader.AddSchema("", schema)[""];
 		AddSchemaDefaultsImpl(schema, data, &lloader, RefSet());
 	}
 
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 6d3df53..31272dc 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -151,6 +151,7 @@ namespace libvariant {
 	std::map<std::string, Variant> SchemaLoader::AddSchema(const std::string &uri, Variant schema) {
 		std::string luri = ResolveURI(uri, "");
 		std::map<std::string, Variant> m;
+		schema = schema.Copy();
 		m[luri] = schema;
 		NormSchema(schema, luri);
 		if (luri.empty() && schema.IsMap() && schema.Contains("id") && schema["id"].IsString()) {
-- 
2.43.0


From fe7f6183b60f807041c1bb3aaa885de4845394ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:46 +0000
Subject: [PATCH 065/122] fix: default values in a schema are not schemas

An "id" or "$ref" in a default value was resolved like one of the schema.
---
 src/SchemaLoader.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 31272dc..c7338fc 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -363,6 +363,12 @@ namespace libvariant {
 		return ret;
 	}
 
+	// Keywords with a map of schemas whose keys are names, not keywords
+	bool IsSchemaMapKey(const std::string &key) {
+		return key == "properties" || key == "patternProperties"
+			|| key == "definitions" || key == "dependencies";
+	}
+
 	void SchemaLoader::NormSchema(Variant &schema, const std::string &uri) {
 		std::string baseuri = uri;
 		if (schema.IsMap()) {
@@ -374,7 +380,11 @@ namespace libvariant {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
 			} else {
 				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (i->first != "enum") {
+					if (IsSchemaMapKey(i->first) && i->second.IsMap()) {
+						for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+							NormSchema(j->second, baseuri);
+						}
+					} else if (i->first != "enum" && i->first != "default") {
 						NormSchema(i->second, baseuri);
 					}
 				}
-- 
2.43.0


From 67f19db4680bdf3bb14556b87db19a6c899784e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:53 +0000
Subject: [PATCH 066/122] fix: find the ids of schemas in lists

---
 src/SchemaLoader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index c7338fc..3e3832e 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -416,10 +416,14 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum" && i->second.IsMap()) {
+				if (i->first != "enum") {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
+		} else if (schema.IsList()) {
+			for (Variant::ListIterator i(schema.ListBegin()), e(schema.ListEnd()); i != e; ++i) {
+				SearchForTrustedSchemas(m, *i, uri);
+			}
 		}
 	}
 
-- 
2.43.0


From 28248c3e1503813a6a6850f511c90ec3e1756291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:58 +0000
Subject: [PATCH 067/122] fix: an error page is not the schema that was asked
 for

---
 src/SchemaLoader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 3e3832e..0aa2a85 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -536,6 +536,8 @@ namespace libvariant {
 			uri = info.protocol + info.authority + info.pathname + info.search;
 			err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
 			if (err != CURLE_OK) { Error(err); }
+			err = curl_easy_setopt(self, CURLOPT_FAILONERROR, 1);
+			if (err != CURLE_OK) { Error(err); }
 		}
 
 		~CurlContext() {
-- 
2.43.0


From ae0a63a06fa1979ffb96363f4ee6702f8fe39cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:03 +0000
Subject: [PATCH 068/122] fix: a schema address that answers with nothing is an
 error

The empty buffer was read.
---
 src/SchemaLoader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 0aa2a85..c32fbf1 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -575,6 +575,9 @@ namespace libvariant {
 		try {
 			CurlContext ctx(info);
 			ctx.Perform();
+			if (ctx.data_buff.empty()) {
+				throw std::runtime_error("Empty document");
+			}
 			AddSchema(ctx.uri, DeserializeGuess(&ctx.data_buff[0], ctx.data_buff.size()));
 			return true;
 		} catch (const std::exception &e) {
-- 
2.43.0


From aba1d2de429903f68a8bf3e9c56f1cce01cbe2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:49 +0000
Subject: [PATCH 069/122] fix: defaults of a recursive schema end with the
 original data

Values added on the way counted as data, so defaults could be added
without end.
---
 src/Schema.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8be4cbf..ee919ba 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -866,27 +866,28 @@ namespace libvariant {
 
 	typedef std::set<std::string> RefSet;
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, RefSet refs);
+	// before is the value that data had originally, null if it did not exist
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, Variant before, SchemaLoader *loader, RefSet refs);
 
-	// A recursive schema may only be followed as far as there is data
-	void AddSchemaChildDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, const RefSet &refs) {
-		AddSchemaDefaultsImpl(schema, data, loader, data.Exists() ? RefSet() : refs);
+	// A recursive schema may only be followed as far as there is original data
+	void AddSchemaChildDefaultsImpl(Variant schema, VariantRef data, Variant before, SchemaLoader *loader, const RefSet &refs) {
+		AddSchemaDefaultsImpl(schema, data, before, loader, before.IsNull() ? refs : RefSet());
 	}
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, const RefSet &refs) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, Variant before, SchemaLoader *loader, const RefSet &refs) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader, refs);
+				AddSchemaDefaultsImpl(*i, data, before, loader, refs);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, RefSet refs) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, Variant before, SchemaLoader *loader, RefSet refs) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
 			std::string ref = schema["$ref"].AsString();
 			if (!refs.insert(ref).second) { return; }
-			AddSchemaDefaultsImpl(loader->GetSchema(ref), data, loader, refs);
+			AddSchemaDefaultsImpl(loader->GetSchema(ref), data, before, loader, refs);
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -896,25 +897,28 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaChildDefaultsImpl(i->second, data.At(i->first), loader, refs);
+				AddSchemaChildDefaultsImpl(i->second, data.At(i->first),
+						before.IsMap() ? before.Get(i->first, Variant()) : Variant(), loader, refs);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaChildDefaultsImpl(schema["items"][i], data[i], loader, refs);
+					AddSchemaChildDefaultsImpl(schema["items"][i], data[i],
+							before.IsList() ? before.Get(i, Variant()) : Variant(), loader, refs);
 				}
 			} else {
 				unsigned i = 0;
 				do {
-					AddSchemaChildDefaultsImpl(schema["items"], data[i], loader, refs);
+					AddSchemaChildDefaultsImpl(schema["items"], data[i],
+							before.IsList() ? before.Get(i, Variant()) : Variant(), loader, refs);
 				} while (data.Exists() && ++i < data.Size());
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, before, loader, refs);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, before, loader, refs);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, before, loader, refs);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -926,7 +930,7 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		schema = lloader.AddSchema("", schema)[""];
-		AddSchemaDefaultsImpl(schema, data, &lloader, RefSet());
+		AddSchemaDefaultsImpl(schema, data, data.Exists() ? data.Copy() : Variant(), &lloader, RefSet());
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From d570d14003f7423966192c77508ce406dbe75a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:56 +0000
Subject: [PATCH 070/122] fix: add the defaults of the parts of a default value

They were only added when defaults were added again.
---
 src/Schema.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index ee919ba..8c14a69 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -891,7 +891,6 @@ namespace libvariant {
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
-			return;
 		}
 		if (schema.Contains("properties") && (!data.Exists() || data.IsMap())) {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
-- 
2.43.0


From f991e432b6ff5bb66ef329adafdec4d458c9a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:02 +0000
Subject: [PATCH 071/122] fix: resolve references in definitions beside a
 reference

---
 src/SchemaLoader.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index c32fbf1..ef208ae 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -378,15 +378,14 @@ namespace libvariant {
 			}
 			if (schema.Contains("$ref") && schema["$ref"].IsString()) {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
-			} else {
-				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (IsSchemaMapKey(i->first) && i->second.IsMap()) {
-						for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
-							NormSchema(j->second, baseuri);
-						}
-					} else if (i->first != "enum" && i->first != "default") {
-						NormSchema(i->second, baseuri);
+			}
+			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
+				if (IsSchemaMapKey(i->first) && i->second.IsMap()) {
+					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+						NormSchema(j->second, baseuri);
 					}
+				} else if (i->first != "enum" && i->first != "default") {
+					NormSchema(i->second, baseuri);
 				}
 			}
 		} else if (schema.IsList()) {
-- 
2.43.0


From 3a631df19123fe32b6433b8b970f40e68585eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:57 +0000
Subject: [PATCH 072/122] fix: an option can be set back to not required

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..0dac268 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -553,7 +553,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From dbe2d74de0191cb8e8e903103811b9c0cfe0ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:04 +0000
Subject: [PATCH 073/122] fix: exit with an error status when the options
 cannot be parsed

---
 src/ArgParse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 0dac268..df9ecf0 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -412,7 +412,7 @@ namespace libvariant {
 		void Parse(int argc, char *const *argv);
 		Variant FormResult();
 
-		void PrintHelp(bool advanced) const;
+		void PrintHelp(bool advanced, int status=0) const;
 		void PrintConfig();
 
 		void MergeDescription(Variant desc);
@@ -991,9 +991,9 @@ namespace libvariant {
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-				if (c == '?') { PrintHelp(false); }
+				if (c == '?') { PrintHelp(false, 1); }
 				optmap_iter o = option_map.find(c);
-				if (o == option_map.end()) { PrintHelp(false); }
+				if (o == option_map.end()) { PrintHelp(false, 1); }
 				ArgParseOptImpl &opt = o->second;
 				opt.HandleOption(optarg);
 			}
@@ -1068,7 +1068,7 @@ namespace libvariant {
 		std::vector<const ArgParseOptImpl*> members;
 	};
 
-	void ArgParseImpl::PrintHelp(bool advanced) const {
+	void ArgParseImpl::PrintHelp(bool advanced, int status) const {
 		std::cerr << title << ": [options]";
 		for (const_arg_iter i(arguments.begin()), e(arguments.end()); i != e; ++i) {
 			const ArgParseOptImpl &arg = *GetOpt(*i);
@@ -1168,7 +1168,7 @@ namespace libvariant {
 		if (!epilog.empty()) {
 			std::cerr << "\n" << epilog << "\n" << std::endl;
 		}
-		exit(0);
+		exit(status);
 	}
 
 	void ArgParseImpl::PrintConfig() {
-- 
2.43.0


From b78ad0d0fd07bb266aee7de194cc34893b54666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:11 +0000
Subject: [PATCH 074/122] fix: refuse integer arguments that do not fit the
 type

---
 src/ArgParse.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index df9ecf0..e038e19 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1521,20 +1521,22 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
-			if (!(val == LLONG_MAX && errno == ERANGE)) {
-				return Variant(val);
-			}
+			if (errno != ERANGE) { return Variant(val); }
+			if (val == LLONG_MIN) { ParseArgIntError(arg); }
 		} // Fall through
 		case Variant::UnsignedType:
 		{
 			char *end = 0;
 			unsigned long long val;
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (errno == ERANGE || strchr(arg, '-')) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From 1a971732ef24e060ae56f79b8859530b3c139a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:18 +0000
Subject: [PATCH 075/122] fix: unsigned options have minimum zero

---
 src/ArgParse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index e038e19..a81e103 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -481,6 +481,9 @@ namespace libvariant {
 		case ARGTYPE_BOOL:
 		case ARGTYPE_FLOAT:
 			impl->type = (Variant::Type_t)type;
+			if (type == ARGTYPE_UINT && !impl->opt.Contains("minimum")) {
+				impl->Set("minimum", 0u);
+			}
 			return *this;
 		default:
 			throw std::runtime_error("ArgParse: Unknown argument type specified.");
-- 
2.43.0


From 0291b929a4bd9e5b04f479535ff467a3ffd505f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:25 +0000
Subject: [PATCH 076/122] fix: refuse missing positional arguments

---
 src/ArgParse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index a81e103..3eb45d3 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -200,6 +200,7 @@ namespace libvariant {
 				const std::string &htxt, ArgParseAction a);
 		void Set(const std::string &key, Variant v) { opt.Set(key, v); }
 		bool HasArg() const { return ArgParseActionHasArg(action); }
+		bool IsArgument() const { return shortOpt == 0 && longOpt.empty(); }
 		bool HasResult() { return ArgParseActionHasResult(action); }
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
 		void Handle(Variant arg);
@@ -1672,7 +1673,7 @@ namespace libvariant {
 					}
 				}
 			}
-		} else if (required) {
+		} else if (required || (IsArgument() && opt.Get("minArgs", 0u) > 0u)) {
 			std::ostringstream oss;
 			oss << "Error parsing arguments\n";
 			oss << "Required " << OptName(this) << " missing.";
-- 
2.43.0


From a9764b20f285628a0fc6435d2d5c5a8ff2ba33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:32 +0000
Subject: [PATCH 077/122] fix: environment variables act like default values

---
 src/ArgParse.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 3eb45d3..bfe24e0 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -203,6 +203,10 @@ namespace libvariant {
 		bool IsArgument() const { return shortOpt == 0 && longOpt.empty(); }
 		bool HasResult() { return ArgParseActionHasResult(action); }
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
+		const char *GetEnv() const {
+			return opt.Contains("env") ? getenv(opt["env"].AsString().c_str()) : 0;
+		}
+		void HandleEnv() { HandleOption(HasArg() ? GetEnv() : 0); }
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
 		Variant ParseArg(const char *arg);
@@ -979,11 +983,8 @@ namespace libvariant {
 					longOpts.push_back(tmp_option);
 				}
 				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
-				// Handle environment variables
-				if (o.opt.Contains("env")) {
-					const char *env = getenv(o.opt["env"].AsString().c_str());
-					if (env) { o.HandleOption(env); }
-				}
+				// The environment of options with a result is handled in FinalizeResult
+				if (o.GetEnv() && !o.HasResult()) { o.HandleEnv(); }
 			}
 			{
 				// End the option list
@@ -1612,7 +1613,7 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if (opt.Contains("default") && result.IsNull()) {
+		if ((opt.Contains("default") || GetEnv()) && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1629,7 +1630,9 @@ namespace libvariant {
 					}
 				}
 			}
-			if (add_default) {
+			if (add_default && GetEnv()) {
+				HandleEnv();
+			} else if (add_default) {
 				switch (action) {
 				case ARGACTION_STORE:
 				case ARGACTION_STORE_CONST:
-- 
2.43.0


From 5bba964680aa9bb9f6bc30c6827297dd387311fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:40 +0000
Subject: [PATCH 078/122] fix: a counter that is not used does not exclude the
 rest of its group

---
 src/ArgParse.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index bfe24e0..375ef24 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -982,7 +982,6 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// The environment of options with a result is handled in FinalizeResult
 				if (o.GetEnv() && !o.HasResult()) { o.HandleEnv(); }
 			}
@@ -1362,6 +1361,7 @@ namespace libvariant {
 			}
 			break;
 		case ARGACTION_COUNT:
+			if (result.IsNull()) { result = 0u; }
 			if (arg.IsNumber()) {
 				result += arg.AsInt();
 			} else {
@@ -1613,7 +1613,7 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if ((opt.Contains("default") || GetEnv()) && result.IsNull()) {
+		if ((opt.Contains("default") || GetEnv() || action == ARGACTION_COUNT) && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1642,7 +1642,10 @@ namespace libvariant {
 					break;
 				case ARGACTION_APPEND:
 					result.Append(opt["default"]);
+					break;
 				case ARGACTION_COUNT:
+					result = 0u;
+					break;
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
 				case ARGACTION_CONFIG:
-- 
2.43.0


From 3f03c83d0245736006f59c1c5a256d313e2f24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:47 +0000
Subject: [PATCH 079/122] fix: check the values of a configuration file

---
 src/ArgParse.cc | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 375ef24..10424b9 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -342,6 +342,10 @@ namespace libvariant {
 			return GetOpt(path_iter->second);
 		}
 
+		bool Contains(const Path &path) const {
+			return paths.find(PathString(path)) != paths.end();
+		}
+
 		ArgParseOptImpl *GetOpt(int id) {
 			return &option_map.find(id)->second;
 		}
@@ -1240,14 +1244,12 @@ namespace libvariant {
 		case Variant::UnsignedType:
 		case Variant::FloatType:
 		case Variant::StringType:
-			try {
-				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {}
+			if (Contains(path)) { At(path)->Handle(opt); }
 			break;
 		case Variant::ListType:
-			try {
+			if (Contains(path)) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {
+			} else {
 				unsigned index = 0;
 				for (Variant::ListIterator i(opt.ListBegin()), e(opt.ListEnd());
 						i != e; ++i, ++index) {
@@ -1396,6 +1398,22 @@ namespace libvariant {
 
 	void ArgParseOptImpl::CheckRequirements(Variant val) {
 
+		bool type_ok = true;
+		switch (type) {
+		case Variant::BoolType: type_ok = val.IsBool(); break;
+		case Variant::IntegerType: case Variant::UnsignedType:
+			type_ok = val.IsNumber() && !val.IsFloat(); break;
+		case Variant::FloatType: type_ok = val.IsNumber(); break;
+		case Variant::StringType: type_ok = val.IsString(); break;
+		default: break;
+		}
+		if (!type_ok) {
+			std::ostringstream oss;
+			oss << "Error parsing arguments\n" << OptName(this) << " is not of type "
+				<< TypeString(type);
+			throw std::runtime_error(oss.str());
+		}
+
 		switch (val.GetType()) {
 		case Variant::StringType:
 			if (opt.Contains("minLength") && val.Size() < opt["minLength"]) {
-- 
2.43.0


From 007f0322cee899282515a7fc1a492f95c1e4786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:54 +0000
Subject: [PATCH 080/122] fix: the default of a constant option satisfies the
 generated schema

---
 src/ArgParse.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 10424b9..f484aeb 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1838,6 +1838,7 @@ namespace libvariant {
 			break;
 		case ARGACTION_STORE_CONST:
 			s["enum"].Append(opt.Get("const"));
+			if (opt.Contains("default")) { s["enum"].Append(opt["default"]); }
 			break;
 		case ARGACTION_STORE_TRUE:
 		case ARGACTION_STORE_FALSE:
-- 
2.43.0


From 4dfa1e2eefbf21e6afa8372b6dfb1691d5d0bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:01 +0000
Subject: [PATCH 081/122] fix: argument lengths count characters like the
 generated schema

---
 src/ArgParse.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index f484aeb..39eb771 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1396,6 +1396,9 @@ namespace libvariant {
 		}
 	}
 
+	// In Schema.cc
+	unsigned CharacterCount(const std::string &s);
+
 	void ArgParseOptImpl::CheckRequirements(Variant val) {
 
 		bool type_ok = true;
@@ -1416,15 +1419,15 @@ namespace libvariant {
 
 		switch (val.GetType()) {
 		case Variant::StringType:
-			if (opt.Contains("minLength") && val.Size() < opt["minLength"]) {
+			if (opt.Contains("minLength") && CharacterCount(val.AsString()) < opt["minLength"]) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << CharacterCount(val.AsString())
 					<< " chars, minimum " << opt["minLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-			if (opt.Contains("maxLength") && val.Size() > opt["maxLength"]) {
+			if (opt.Contains("maxLength") && CharacterCount(val.AsString()) > opt["maxLength"]) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << CharacterCount(val.AsString())
 					<< " chars, maximum " << opt["maxLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-- 
2.43.0


From f95e49f24fed30c39e670fabcbf61aedee3e5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:08 +0000
Subject: [PATCH 082/122] fix: merge descriptions with positional arguments in
 groups

---
 src/ArgParse.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 39eb771..b36a06f 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1205,16 +1205,6 @@ namespace libvariant {
 				AddOption(keypath, shortOpt, longOpt, helptxt, action)->Init(o);
 			}
 		}
-		if (desc.Contains("groups") && desc["groups"].IsMap()) {
-			Variant grps = desc["groups"];
-			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
-					i != e; ++i)
-			{
-				Variant g = i->second;
-				std::string name = i->first;
-				GetGroup(name)->Init(g);
-			}
-		}
 		if (desc.Contains("arguments") && desc["arguments"].IsList()) {
 			Variant args = desc["arguments"];
 			for (Variant::ListIterator i(args.ListBegin()), e(args.ListEnd());
@@ -1228,6 +1218,16 @@ namespace libvariant {
 				AddArgument(keypath, helptxt, action)->Init(o);
 			}
 		}
+		if (desc.Contains("groups") && desc["groups"].IsMap()) {
+			Variant grps = desc["groups"];
+			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
+					i != e; ++i)
+			{
+				Variant g = i->second;
+				std::string name = i->first;
+				GetGroup(name)->Init(g);
+			}
+		}
 	}
 
 	void ArgParseImpl::MergeOptions(Variant opts) {
-- 
2.43.0


From eff510d6db8e4ff8d9bbd63c71979ce4359a3dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:14 +0000
Subject: [PATCH 083/122] fix: options merged from another parser do not share
 its choices

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index b36a06f..1792ecd 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1630,7 +1630,7 @@ namespace libvariant {
 		o.GetInto(required, "required", required);
 		o.GetInto(advanced, "advanced", false);
 		if (advanced) { impl->have_advanced = true; }
-		opt.Merge(o);
+		opt.Merge(o.Copy());
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-- 
2.43.0


From 8be1abe13cb9a8ee6776e6afc37cde7f843b034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:22 +0000
Subject: [PATCH 084/122] fix: generate the schema of groups of list elements

---
 src/ArgParse.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1792ecd..baf29ce 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -883,19 +883,23 @@ namespace libvariant {
 	void ArgParseGroupImpl::GroupSchema(VariantRef schema, const ArgParseOptImpl *opt,
 		   	Path::const_iterator i, Path::const_iterator e) const
 	{
+		schema = Variant::MapType;
 		if (i != e) {
 			if (i->IsString()) {
+				schema["type"] = "object";
 				schema["required"].Append(i->AsString());
 				GroupSchema(schema["properties"][i->AsString()], opt, i+1, e);
 			} else if (i->IsNumber()) {
-				if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-				if (schema["items"].Size() < i->AsUnsigned()) {
-					schema["items"].AsList().resize(i->AsUnsigned(), Variant::MapType);
-				}
-				GroupSchema(schema["items"][unsigned(i->AsUnsigned())], opt, i+1, e);
-			}
-		} else {
-			schema = Variant::MapType;
+				unsigned index = i->AsUnsigned();
+				schema["type"] = "array";
+				schema["minItems"] = index + 1;
+				schema["items"] = Variant::ListType;
+				schema["items"].AsList().resize(index + 1, Variant::MapType);
+				GroupSchema(schema["items"][index], opt, i+1, e);
+			}
+		} else if (opt->path.back().IsNumber()) {
+			// Elements that are not set are null
+			schema["not"]["type"] = "null";
 		}
 	}
 
-- 
2.43.0


From 00041c15c7d1274ed63d4b4e43fd657b1352e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:30 +0000
Subject: [PATCH 085/122] fix: parsing again starts without the results of the
 last time

---
 src/ArgParse.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index baf29ce..9fe5c57 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -975,12 +975,15 @@ namespace libvariant {
 			resolve_conflicts = old_conflict;
 		}
 
+		print_help = print_adv_help = print_config = false;
+
 		try {
 			std::string shortOpts;
 			std::vector<struct option> longOpts;
 			for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
 				ArgParseOptImpl &o = i->second;
 				int id = i->first;
+				o.result = Variant::NullType;
 				if (o.shortOpt > 0) {
 					shortOpts.append(1, (char)o.shortOpt);
 					if (o.HasArg()) { shortOpts.append(1, ':'); }
@@ -1339,7 +1342,7 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"];
+			result = opt["const"].Copy();
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
@@ -1663,10 +1666,10 @@ namespace libvariant {
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"];
+					result = opt["default"].Copy();
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"]);
+					result.Append(opt["default"].Copy());
 					break;
 				case ARGACTION_COUNT:
 					result = 0u;
-- 
2.43.0


From d2ed753cb68135605c1ec9600996cfcb95d12f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:37 +0000
Subject: [PATCH 086/122] fix: a configuration with the default of a constant
 option can be loaded

---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 9fe5c57..15204fe 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1342,7 +1342,11 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"].Copy();
+			if (!arg.IsNull() && opt.Contains("default") && arg == opt["default"]) {
+				result = arg;
+			} else {
+				result = opt["const"].Copy();
+			}
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
-- 
2.43.0


From 7128a432ccf47642e4170e7f75783eb72e83c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:38 +0000
Subject: [PATCH 087/122] fix: build the shared schema data once when threads
 create their first loaders

---
 src/SchemaLoader.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index ef208ae..f2f45f5 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -51,18 +51,10 @@ namespace libvariant {
 		Variant JSON_SCHEMA_SCHEMA;
 		std::string SCHEMA_URI;
 	};
-	shared_ptr<SchemaStaticData> schema_static_data;
-
-	SchemaStaticData *GetSchemaStaticData() {
-		// This is actually a race condition when multithreading is used, but
-		// every thread will write the same data, so this is "OK" as long as
-		// the CPU cache coherency is reasonable.
-		if (!schema_static_data.get()) {
-			shared_ptr<SchemaStaticData> new_schema_static_data;
-			new_schema_static_data.reset(new SchemaStaticData);
-			schema_static_data = new_schema_static_data;
-		}
-		return schema_static_data.get();
+	static SchemaStaticData *GetSchemaStaticData() {
+		// Initialized by the first thread to get here, others wait for it.
+		static SchemaStaticData schema_static_data;
+		return &schema_static_data;
 	}
 
 	SchemaLoader::SchemaLoader()
-- 
2.43.0


From 3617c7f8f2e732194b65f07acb96b27e3c337ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:42 +0000
Subject: [PATCH 088/122] fix: initialise libxml2 once when threads use it for
 the first time

---
 src/XMLPLISTDefs.h     | 15 +++++++++++++++
 src/XMLPLISTEmitter.cc |  1 +
 src/XMLPLISTParser.cc  |  1 +
 3 files changed, 17 insertions(+)

diff --git a/src/XMLPLISTDefs.h b/src/XMLPLISTDefs.h
index ef7ebe4..cdde94d 100644
--- a/src/XMLPLISTDefs.h
+++ b/src/XMLPLISTDefs.h
@@ -34,4 +34,19 @@
 #define KEY_NAME "key"
 #define BLOB_NAME "data"
 
+#include <libxml/parser.h>
+
+namespace libvariant {
+
+	// libxml2 sets up its global state on first use, which must not happen in
+	// several threads at the same time.
+	inline void InitXML() {
+		static const struct XMLInit {
+			XMLInit() { xmlInitParser(); }
+		} init;
+		(void)init;
+	}
+
+}
+
 #endif
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index ec1fe9c..0d08d1b 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -62,6 +62,7 @@ namespace libvariant {
 			params.GetInto(indent, "indent", indent);
 			params.GetInto(precision, "precision", precision);
 		}
+		InitXML();
 		xmlOutputBufferPtr xmloutput = xmlOutputBufferCreateIO(&XMLPLISTEmitterImpl::DoWrite,
 				&XMLPLISTEmitterImpl::DoClose,
 				(void*)this, 0);
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 5d38a9e..925eaa3 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -373,6 +373,7 @@ namespace libvariant {
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
 		: input(in), closed(false), err(false)
    	{
+		InitXML();
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
-- 
2.43.0


From f11132582253f85e059f5070b07332d2c4f936c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:39 +0000
Subject: [PATCH 089/122] fix: varsh reports errors instead of aborting

An error from the library, such as malformed input or an absent path,
left main as an uncaught exception and ended the tool with SIGABRT.
Print the message and exit with status 1.
---
 src/varsh.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..d387214 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -98,7 +98,7 @@ void Process(State &state, ostream &out, istream &in) {
 	}
 }
 
-int main(int argc, char **argv) {
+int Run(int argc, char **argv) {
 	ArgParse opts(*argv);
 	opts.AddOption("schema_path", 0, "schema-path", "Add a search path for schemas.")
 		.Action(ARGACTION_APPEND).Type(ARGTYPE_STRING);
@@ -230,4 +230,13 @@ int main(int argc, char **argv) {
 	return 0;
 }
 
+int main(int argc, char **argv) {
+	try {
+		return Run(argc, argv);
+	} catch (const std::exception &e) {
+		cerr << *argv << ": " << e.what() << endl;
+		return 1;
+	}
+}
+
 
-- 
2.43.0


From f3d9c7d4a699b9dd46cf10e7aff5149120ce7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:43 +0000
Subject: [PATCH 090/122] fix: varsh notices files it cannot open or write

A missing input was read as an empty document, so "varsh -Y missing"
printed null and exited with 0.  An output file that could not be opened
or a full disk went unnoticed as well when listing keys or printing a
length.
---
 src/varsh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index d387214..4cf280e 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -29,6 +29,7 @@
 #include <fstream>
 #include <unistd.h>
 #include <stdlib.h>
+#include <stdexcept>
 
 using namespace std;
 using namespace libvariant;
@@ -216,17 +217,21 @@ int Run(int argc, char **argv) {
 	ostream *output = &cout;
 	if (state.conf.Contains("output")) {
 		output_file.open(state.conf["output"].AsString().c_str());
+		if (!output_file) { throw runtime_error("unable to open " + state.conf["output"].AsString() + " for writing"); }
 		output = &output_file;
 	}
 
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) { throw runtime_error("unable to open " + i->AsString()); }
 			Process(state, *output, input);
 		}
 	} else {
 		Process(state, *output, cin);
 	}
+	output->flush();
+	if (!*output) { throw runtime_error("unable to write the output"); }
 	return 0;
 }
 
-- 
2.43.0


From d4a6144d9dba69d8cdc0fe59a478c8eb449ef535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:46 +0000
Subject: [PATCH 091/122] fix: JSON integers beyond 64 bits keep their
 magnitude

[99999999999999999999] was read as 18446744073709551615 and large negative
integers as the smallest 64 bit integer, without any error.  Read such
numbers as floating point.
---
 lib/json/JSON_parser.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index c408002..0f75f79 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -57,6 +57,7 @@ SOFTWARE.
 
 
 #include <assert.h>
+#include <errno.h>
 #include <ctype.h>
 #include <float.h>
 #include <stddef.h>
@@ -480,6 +481,7 @@ static int parse_parse_buffer(JSON_parser jc)
 {
     if (jc->callback) {
         JSON_value value, *arg = NULL;
+        int type = jc->type;
         
         if (jc->type != JSON_T_NONE) {
             assert_is_non_container_type(jc);
@@ -497,11 +499,19 @@ static int parse_parse_buffer(JSON_parser jc)
                     break;
                 case JSON_T_INTEGER:
                     arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_INTEGER_SSCANF_TOKEN, &value.vu.integer_value);
+                    errno = 0;
+                    value.vu.integer_value = strtoll(jc->parse_buffer, NULL, 10);
+                    if (errno == ERANGE) {
+                        type = JSON_T_FLOAT;
+                    }
                     break;
                 case JSON_T_UNSIGNED:
                     arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_UNSIGNED_SSCANF_TOKEN, &value.vu.unsigned_value);
+                    errno = 0;
+                    value.vu.unsigned_value = strtoull(jc->parse_buffer, NULL, 10);
+                    if (errno == ERANGE) {
+                        type = JSON_T_FLOAT;
+                    }
                     break;
                 case JSON_T_STRING:
                     arg = &value;
@@ -510,7 +520,17 @@ static int parse_parse_buffer(JSON_parser jc)
                     break;
             }
             
-            if (!(*jc->callback)(jc->ctx, jc->type, arg)) {
+            if (type != jc->type) {
+                /* integer too large for the integer types */
+                if (jc->handle_floats_manually) {
+                    value.vu.str.value = jc->parse_buffer;
+                    value.vu.str.length = jc->parse_buffer_count;
+                } else {
+                    value.vu.float_value = strtod(jc->parse_buffer, NULL);
+                }
+            }
+            
+            if (!(*jc->callback)(jc->ctx, type, arg)) {
                 return false;
             }
         }
-- 
2.43.0


From 3acb778d2b86a888dcd78cc35a62eaaf043cc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:49 +0000
Subject: [PATCH 092/122] fix: YAML and bundle integers beyond 64 bits keep
 their magnitude

Plain integers too large for 64 bits were read as the largest or smallest
64 bit integer, without any error.  Read them as floating point.
---
 src/GuessScalar.cc | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index f3bc6a4..1011cc3 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -90,21 +90,39 @@ namespace libvariant {
 				long long val;
 				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					unsigned long long v;
-					v = strtoull(&value[match[MATCH_INT10].rm_so], 0, 10);
-					action->Scalar(p, uintmax_t(v), anchor, tag);
+				if (errno == ERANGE) {
+					unsigned long long v = 0;
+					errno = 0;
+					if (val == LLONG_MAX) { v = strtoull(&value[match[MATCH_INT10].rm_so], 0, 10); }
+					if (val == LLONG_MAX && errno != ERANGE) {
+						action->Scalar(p, uintmax_t(v), anchor, tag);
+					} else {
+						action->Scalar(p, strtod(&value[match[MATCH_INT10].rm_so], 0), anchor, tag);
+					}
 				} else {
 					action->Scalar(p, intmax_t(val), anchor, tag);
 				}
 			} else if (match[MATCH_INT8].rm_so != -1) {
 				unsigned long long val;
+				errno = 0;
 				val = strtoull(&value[match[MATCH_INT8].rm_so], 0, 8);
-				action->Scalar(p, uintmax_t(val), anchor, tag);
+				if (errno == ERANGE) {
+					double d = 0;
+					for (int i = match[MATCH_INT8].rm_so; i < match[MATCH_INT8].rm_eo; ++i) { d = d * 8 + (value[i] - '0'); }
+					action->Scalar(p, d, anchor, tag);
+				} else {
+					action->Scalar(p, uintmax_t(val), anchor, tag);
+				}
 			} else if (match[MATCH_INT16].rm_so != -1) {
 				unsigned long long val;
+				errno = 0;
 				val = strtoull(&value[match[MATCH_INT16].rm_so], 0, 16);
-				action->Scalar(p, uintmax_t(val), anchor, tag);
+				if (errno == ERANGE) {
+					// include the 0x that is in front of the digits
+					action->Scalar(p, strtod(&value[match[MATCH_INT16].rm_so - 2], 0), anchor, tag);
+				} else {
+					action->Scalar(p, uintmax_t(val), anchor, tag);
+				}
 			} else if (match[MATCH_FLOAT].rm_so != -1) {
 				double val = strtod(&value[match[MATCH_FLOAT].rm_so], 0);
 				action->Scalar(p, val, anchor, tag);
-- 
2.43.0


From 942e11d91a58fc235713f41cff6860a709ed1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:53 +0000
Subject: [PATCH 093/122] fix: property list integers beyond 64 bits keep their
 magnitude

Integer elements too large for 64 bits were read as the largest or
smallest 64 bit integer, without any error.  Read them as floating point.
---
 src/XMLPLISTParser.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 925eaa3..dafe17c 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -285,9 +285,15 @@ namespace libvariant {
 			} else {
 				errno = 0;
 				intmax_t val = strtoll(text.c_str(), 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v = strtoull(text.c_str(), 0, 0);
-					action->Scalar(this, v, 0, 0);
+				if (errno == ERANGE) {
+					uintmax_t v = 0;
+					errno = 0;
+					if (val == LLONG_MAX) { v = strtoull(text.c_str(), 0, 0); }
+					if (val == LLONG_MAX && errno != ERANGE) {
+						action->Scalar(this, v, 0, 0);
+					} else {
+						action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+					}
 				} else {
 					action->Scalar(this, val, 0, 0);
 				}
-- 
2.43.0


From 0319f9c4be52aff33783ca85d0ef44671a39b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:32:56 +0000
Subject: [PATCH 094/122] fix: YAML emitter styles read back as they were set

GetParam and GetParams looked the style names up with the number of the
parameter instead of the configured style.
---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 3f61a0e..abf1e11 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -149,11 +149,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From 605800f464f98ce65efb9c7ac5ea35965d0df0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:00 +0000
Subject: [PATCH 095/122] fix: indent and width set on a YAML emitter take
 effect

They were handed to libyaml in the constructor only, so setting them with
SetParam or SetParams changed nothing.
---
 src/YAMLEmitter.cc | 19 +++++++++++++------
 src/YAMLEmitter.h  |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index abf1e11..f4650e2 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -191,12 +191,7 @@ namespace libvariant {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
 		yaml_emitter_set_output(&emitter, WriteHandler, this);
-		if (conf.indent > 0) {
-			yaml_emitter_set_indent(&emitter, conf.indent);
-		}
-		if (conf.width > 0) {
-			yaml_emitter_set_width(&emitter, conf.width);
-		}
+		UpdateParams();
 		try { EmitStreamStart(); }
 		catch (...) {
 			yaml_emitter_delete(&emitter);
@@ -401,10 +396,22 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::SetParam(const std::string &key, Variant value) {
 		conf.SetParam(key, value);
+		UpdateParams();
 	}
 
 	void YAMLEmitterImpl::SetParams(Variant params) {
 		conf.SetParams(params);
+		UpdateParams();
+	}
+
+	void YAMLEmitterImpl::UpdateParams() {
+		if (closed) return;
+		if (conf.indent > 0) {
+			yaml_emitter_set_indent(&emitter, conf.indent);
+		}
+		if (conf.width > 0) {
+			yaml_emitter_set_width(&emitter, conf.width);
+		}
 	}
 
 	void YAMLEmitterImpl::EmitStreamStart() {
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index 80f15b4..e4d7c7b 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -139,6 +139,7 @@ namespace libvariant {
 	private:
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
+		void UpdateParams();
 		void HandleError();
 		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
 
-- 
2.43.0


From da7754e7ee341d7aaa0e2b11dd31a12b85ba9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:04 +0000
Subject: [PATCH 096/122] fix: the strict parameter of a JSON emitter can be
 set and read

It was only honoured when given to the constructor; SetParam ignored it
and GetParam and GetParams did not report it.
---
 src/JSONEmitter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 3e437a2..885b430 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -169,6 +169,7 @@ namespace libvariant {
 
 	Variant JSONEmitterImpl::GetParam(const std::string &key) {
 		if (key == "pretty") { return pretty; }
+		if (key == "strict") { return strict; }
 		if (key == "indent") { return num_indent; }
 		if (key == "precision") { return numeric_precision; }
 		return Variant::NullType;
@@ -177,6 +178,7 @@ namespace libvariant {
 	Variant JSONEmitterImpl::GetParams() {
 		Variant ret;
 		ret["pretty"] = pretty;
+		ret["strict"] = strict;
 		ret["indent"] = num_indent;
 		ret["precision"] = numeric_precision;
 		return ret;
@@ -186,6 +188,9 @@ namespace libvariant {
 		if (key == "pretty") {
 			pretty = value.AsBool();
 		}
+		if (key == "strict") {
+			strict = value.AsBool();
+		}
 		if (key == "indent") {
 			num_indent = value.AsUnsigned();
 		}
-- 
2.43.0


From ec7cada13b02b1ac6eb8bbe8b4bf3a800fec94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:08 +0000
Subject: [PATCH 097/122] fix: property list emitter indents by the requested
 amount

The indent parameter only switched indenting on or off: every level was
indented by one space, whatever the amount asked for.
---
 src/XMLPLISTEmitter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 0d08d1b..c53b860 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -222,7 +222,8 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::UpdateParams() {
 		if (pretty) {
-			xmlTextWriterSetIndent(writer, indent);
+			xmlTextWriterSetIndent(writer, indent ? 1 : 0);
+			xmlTextWriterSetIndentString(writer, (const xmlChar*)std::string(indent, ' ').c_str());
 		} else {
 			xmlTextWriterSetIndent(writer, 0);
 		}
-- 
2.43.0


From cc45727a65a7be42ed55e32cd85269f7aeb1149c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:11 +0000
Subject: [PATCH 098/122] fix: bundle header emitter honours the precision it
 is created with

The parameters given to the constructor were ignored.
---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index a316709..949c2a9 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -18,6 +18,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From 908e204a7629ae55d3ed23d0789dc4f77668bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:15 +0000
Subject: [PATCH 099/122] fix: YAML emitter uses the configured scalar style

The scalar_style parameter was stored and never used.
---
 src/YAMLEmitter.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index f4650e2..544c125 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -312,7 +312,14 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(const char *v) {
 		// text that would be read as another type, or as nothing, must be quoted
-		Emit(v, (*v && GuessIsString(v)) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
+		ScalarStyle style = conf.default_scalar_style;
+		if (!*v || !GuessIsString(v)) {
+			style = style == SINGLE_QUOTED_SCALAR_STYLE ? SINGLE_QUOTED_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE;
+		} else if (style == FOLDED_SCALAR_STYLE && (*v == ' ' || strstr(v, "\n "))) {
+			// libyaml may fold a line inside its leading spaces
+			style = DOUBLE_QUOTED_SCALAR_STYLE;
+		}
+		Emit(v, style);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From 30e5f0e76746d7818cf1a4c4a896c71eb1f30ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:32:28 +0000
Subject: [PATCH 100/122] fix: write numbers the same way in every locale

The global C++ locale was applied to the digits, so a program that sets one
wrote 1.234.567 or 1,5 into documents, paths and pointers that could then not
be read back.
---
 src/BundleHdrEmitter.cc | 3 +++
 src/Extensions.cc       | 2 ++
 src/JSONEmitter.cc      | 3 +++
 src/Path.cc             | 1 +
 src/Variant.cc          | 3 +++
 src/XMLPLISTEmitter.cc  | 3 +++
 src/YAMLEmitter.cc      | 3 +++
 7 files changed, 18 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 949c2a9..2d50e28 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -97,18 +97,21 @@ namespace libvariant {
 
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
diff --git a/src/Extensions.cc b/src/Extensions.cc
index 143d102..5efd67f 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -131,6 +131,7 @@ namespace libvariant {
 			} else {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
+					tmp.imbue(std::locale::classic());
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -640,6 +641,7 @@ namespace libvariant {
 
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
+		ret.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 885b430..591b300 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -111,6 +111,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -118,6 +119,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(uintmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -125,6 +127,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(double v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/Path.cc b/src/Path.cc
index f056c6e..5442da0 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -87,6 +87,7 @@ namespace libvariant {
 	std::string PathString(const Path &path) {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
diff --git a/src/Variant.cc b/src/Variant.cc
index b51aef8..aac2d6e 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -853,6 +853,7 @@ namespace libvariant {
 
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->i;
 			return oss.str();
 		}
@@ -912,6 +913,7 @@ namespace libvariant {
 
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->u;
 			return oss.str();
 		}
@@ -980,6 +982,7 @@ namespace libvariant {
 
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.imbue(std::locale::classic());
 			oss << that->f;
 			return oss.str();
 		}
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index c53b860..5c01a4c 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -151,6 +151,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(intmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -159,6 +160,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -167,6 +169,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(double v) {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 544c125..12932fd 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -335,18 +335,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.imbue(std::locale::classic());
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From d8a3f91218abe5fbeba4f5e450ddcc41dc09e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:32:35 +0000
Subject: [PATCH 101/122] fix: read numbers the same way in every locale

strtod and the string streams follow the locale of the program: where the
decimal separator is a comma 1.5 was read as 1.
---
 src/ArgParse.cc       |  3 ++-
 src/GuessScalar.cc    |  7 ++++---
 src/ParseFloat.h      | 21 +++++++++++++++++++++
 src/Path.cc           |  1 +
 src/Variant.cc        |  3 +++
 src/XMLPLISTParser.cc |  5 +++--
 6 files changed, 34 insertions(+), 6 deletions(-)
 create mode 100644 src/ParseFloat.h

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 15204fe..d5c270f 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -22,6 +22,7 @@
 #include <unistd.h>
 #include "GuessScalar.h"
 #include "ParseBool.h"
+#include "ParseFloat.h"
 
 #if 0
 #define DBPRINT(x) std::cout << x
@@ -1579,7 +1580,7 @@ namespace libvariant {
 		case Variant::FloatType:
 		{
 			char *end = 0;
-			double val = strtod(arg, &end);
+			double val = ParseFloat(arg, &end);
 			if ((val == 0 && end == arg) || (arg + len != end)) {
 				std::ostringstream oss;
 				oss << "Error parsing arguments\nUnable to convert \"" << arg << "\" to a number";
diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 1011cc3..f563682 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include "GuessScalar.h"
+#include "ParseFloat.h"
 #include <stdlib.h>
 #include <regex.h>
 #include <errno.h>
@@ -97,7 +98,7 @@ namespace libvariant {
 					if (val == LLONG_MAX && errno != ERANGE) {
 						action->Scalar(p, uintmax_t(v), anchor, tag);
 					} else {
-						action->Scalar(p, strtod(&value[match[MATCH_INT10].rm_so], 0), anchor, tag);
+						action->Scalar(p, ParseFloat(&value[match[MATCH_INT10].rm_so], 0), anchor, tag);
 					}
 				} else {
 					action->Scalar(p, intmax_t(val), anchor, tag);
@@ -119,12 +120,12 @@ namespace libvariant {
 				val = strtoull(&value[match[MATCH_INT16].rm_so], 0, 16);
 				if (errno == ERANGE) {
 					// include the 0x that is in front of the digits
-					action->Scalar(p, strtod(&value[match[MATCH_INT16].rm_so - 2], 0), anchor, tag);
+					action->Scalar(p, ParseFloat(&value[match[MATCH_INT16].rm_so - 2], 0), anchor, tag);
 				} else {
 					action->Scalar(p, uintmax_t(val), anchor, tag);
 				}
 			} else if (match[MATCH_FLOAT].rm_so != -1) {
-				double val = strtod(&value[match[MATCH_FLOAT].rm_so], 0);
+				double val = ParseFloat(&value[match[MATCH_FLOAT].rm_so], 0);
 				action->Scalar(p, val, anchor, tag);
 			} else if (match[MATCH_INF].rm_so != -1) {
 				double val = std::numeric_limits<double>::infinity();
diff --git a/src/ParseFloat.h b/src/ParseFloat.h
new file mode 100644
index 0000000..96359df
--- /dev/null
+++ b/src/ParseFloat.h
@@ -0,0 +1,21 @@
+/** \file
+ */
+#ifndef PARSEFLOAT_H
+#define PARSEFLOAT_H
+#pragma once
+#include <locale.h>
+#include <stdlib.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
+/**
+ * \brief strtod as in the "C" locale.
+ *
+ * The decimal point is '.' no matter what the locale
+ * of the program is.
+ */
+inline double ParseFloat(const char *str, char **end) {
+	static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+	return strtod_l(str, end, c_locale);
+}
+#endif
diff --git a/src/Path.cc b/src/Path.cc
index 5442da0..9512a7f 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -21,6 +21,7 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
+					iss.imbue(std::locale::classic());
 					unsigned i = 0;
 					if (frag.find_first_not_of("0123456789") != std::string::npos || !(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
diff --git a/src/Variant.cc b/src/Variant.cc
index aac2d6e..44735b7 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1053,6 +1053,7 @@ namespace libvariant {
 
 		long double String::AsLongDouble(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			long double val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "a float"); }
@@ -1061,6 +1062,7 @@ namespace libvariant {
 
 		uintmax_t String::AsUnsigned(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			uintmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an unsigned"); }
@@ -1069,6 +1071,7 @@ namespace libvariant {
 
 		intmax_t String::AsInt(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			intmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an int"); }
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index dafe17c..3748cd5 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -26,6 +26,7 @@
 #include <string.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
+#include "ParseFloat.h"
 
 namespace libvariant {
 
@@ -281,7 +282,7 @@ namespace libvariant {
 				throw std::runtime_error(errorstr);
 			}
 			if (nodetype == FloatNode) {
-				action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+				action->Scalar(this, ParseFloat(text.c_str(), 0), 0, 0);
 			} else {
 				errno = 0;
 				intmax_t val = strtoll(text.c_str(), 0, 0);
@@ -292,7 +293,7 @@ namespace libvariant {
 					if (val == LLONG_MAX && errno != ERANGE) {
 						action->Scalar(this, v, 0, 0);
 					} else {
-						action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+						action->Scalar(this, ParseFloat(text.c_str(), 0), 0, 0);
 					}
 				} else {
 					action->Scalar(this, val, 0, 0);
-- 
2.43.0


From 4e8e4a67412fc617d3b5847e9fe98bdcf0fba92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:32:39 +0000
Subject: [PATCH 102/122] fix: read JSON floats in locales with a multibyte
 decimal separator

Only the first byte of the separator was put in the place of the point.
---
 src/JSONParser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index daf2d95..36ff906 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -19,6 +19,7 @@
  */
 #include "JSONParser.h"
 #include "BlobMagic.h"
+#include "ParseFloat.h"
 
 namespace libvariant {
 
@@ -54,7 +55,7 @@ namespace libvariant {
 				impl->TopAction()->Scalar(impl, uintmax_t(value->vu.unsigned_value), 0, 0);
 				break;
 			case JSON_T_FLOAT:
-				impl->TopAction()->Scalar(impl, value->vu.float_value, 0, 0);
+				impl->TopAction()->Scalar(impl, ParseFloat(value->vu.str.value, 0), 0, 0);
 				break;
 			case JSON_T_NULL:
 				impl->TopAction()->Null(impl, 0, 0);
@@ -129,6 +130,7 @@ namespace libvariant {
 		// A document is destroyed recursively, leave it a stack to do so
 		config.depth = 10000;
 		config.allow_comments = 1;
+		config.handle_floats_manually = 1;
 		parser = new_JSON_parser(&config);
 	}
 
-- 
2.43.0


From 11302281226f00c5b8f4b3fad7fd766f455e8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 103/122] fix: keep a value intact when memory for its new
 contents runs out

---
 src/Variant.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 44735b7..377ed1f 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1101,9 +1101,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1241,9 +1241,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1367,9 +1367,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1432,9 +1432,9 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
@@ -1651,11 +1651,13 @@ namespace libvariant {
 			static const Ref ref_vtable;
 			// What that held until now may be all that keeps other alive
 			shared_ptr<Storage> keep = that->storage;
+			// XXX: const cast.. double ICKY!
+			Data *ref = const_cast<Data*>(other);
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
-			// XXX: const cast.. double ICKY!
-			that->ref = const_cast<Data*>(other);
-			that->ref_data = that->ref->vtable->EnsureRef(that->ref);
+			that->ref = ref;
+			that->ref_data = ref_data;
 		}
 
 		//--------------------
@@ -1958,10 +1960,11 @@ namespace libvariant {
 			static const Proxy proxy_vtable;
 			// What that held until now may be all that keeps ref and the path alive
 			shared_ptr<Storage> keep = that->storage;
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From be36e89d9d764c64acc17b36bbf2e2a4a45fd7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 104/122] fix: let errors be raised when memory for their
 message runs out

---
 include/Variant/Exceptions.h | 22 +++++++++++-----------
 src/Exceptions.cc            | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/Variant/Exceptions.h b/include/Variant/Exceptions.h
index da59c28..45bb346 100644
--- a/include/Variant/Exceptions.h
+++ b/include/Variant/Exceptions.h
@@ -29,55 +29,55 @@ namespace libvariant {
 	/// \brief Exception thrown when a key does not exist.
 	class KeyError : public std::runtime_error {
 	public:
-		KeyError(const std::string &key) throw();
+		KeyError(const std::string &key);
 	};
 
 	/// \brief Exception thrown when internal state is corrupt.
 	class UnknownTypeError : public std::runtime_error {
 	public:
-		UnknownTypeError(VariantDefines::Type_t type) throw();
+		UnknownTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when a function expects a specific type but the action type conflicts.
 	class UnexpectedTypeError : public std::runtime_error {
 	public:
-		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw();
-		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value) throw();
+		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value);
+		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value);
 	};
 
 	/// \brief Exception thrown when a function cannot convert the Variant to an acceptable type for the routine.
 	class UnableToConvertError : public std::runtime_error {
 	public:
-		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype) throw();
+		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype);
 	};
 
 	/// \brief Exception thrown when trying to index a type other than map or list.
 	class TypeNotIndexableError : public std::runtime_error {
 	public:
-		TypeNotIndexableError(VariantDefines::Type_t type) throw();
+		TypeNotIndexableError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when attempting a numeric operation on a non numeric type.
 	class NotNumericTypeError : public std::runtime_error {
 	public:
-		NotNumericTypeError(VariantDefines::Type_t type) throw();
+		NotNumericTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown from path functions
 	class BadPathError : public std::runtime_error {
 	public:
-		BadPathError(VariantDefines::Type_t type) throw();
-		BadPathError(const std::string &msg) throw();
+		BadPathError(VariantDefines::Type_t type);
+		BadPathError(const std::string &msg);
 	};
 
 	class InvalidReferenceError : public std::runtime_error {
 	public:
-		InvalidReferenceError(const std::string &msg) throw();
+		InvalidReferenceError(const std::string &msg);
 	};
 
 	class InvalidOperationError : public std::runtime_error {
 	public:
-		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw();
+		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname);
 	};
 
 	std::ostream &operator <<(std::ostream &os, VariantDefines::Type_t type);
diff --git a/src/Exceptions.cc b/src/Exceptions.cc
index 2ffe4c2..061548f 100644
--- a/src/Exceptions.cc
+++ b/src/Exceptions.cc
@@ -73,7 +73,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type) throw()
+	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(UnknownTypeErrorMessage(type))
    	{}
 
@@ -96,12 +96,12 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw()
+	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
    	{}
 
 	UnexpectedTypeError::UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected,
-		   	VariantDefines::Type_t value) throw()
+		   	VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
 	{}
 
@@ -114,7 +114,7 @@ namespace libvariant {
 	}
 
 	UnableToConvertError::UnableToConvertError(VariantDefines::Type_t sourcetype,
-		   	const std::string &targettype) throw()
+		   	const std::string &targettype)
 		: std::runtime_error(UnableToConvertErrorMessage(sourcetype, targettype))
    	{}
 
@@ -125,7 +125,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type) throw()
+	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type)
 		: std::runtime_error(TypeNotIndexableErrorMessage(type))
    	{}
 
@@ -136,7 +136,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type) throw()
+	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(NotNumericTypeErrorMessage(type))
 	{}
 
@@ -147,7 +147,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	KeyError::KeyError(const std::string &key) throw()
+	KeyError::KeyError(const std::string &key)
 		: std::runtime_error(KeyErrorMessage(key))
 	{}
 
@@ -165,11 +165,11 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	BadPathError::BadPathError(VariantDefines::Type_t type) throw()
+	BadPathError::BadPathError(VariantDefines::Type_t type)
 		: std::runtime_error(BadPathErrorMessage(type))
 	{}
 
-	BadPathError::BadPathError(const std::string &msg) throw()
+	BadPathError::BadPathError(const std::string &msg)
 		: std::runtime_error(BadPathErrorMessage(msg))
 	{}
 
@@ -180,7 +180,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidReferenceError::InvalidReferenceError(const std::string &msg) throw()
+	InvalidReferenceError::InvalidReferenceError(const std::string &msg)
 		: std::runtime_error(InvalidReferenceErrorMessage(msg))
 	{}
 
@@ -192,7 +192,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw()
+	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname)
 		: std::runtime_error(InvalidOperationErrorMessage(type, opname))
 	{}
 }
-- 
2.43.0


From 70e011f18e3e218cf33951f7f013baffd721355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 105/122] fix: release the buffers of a blob that cannot be
 created

---
 src/Blob.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index 452fc94..1985bfc 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -17,11 +17,19 @@ namespace libvariant {
 	shared_ptr<Blob> Blob::Create(void *ptr, unsigned len, BlobFreeFunc ffunc, void *context)
 	{
 		struct iovec iov = { ptr, len };
-		return shared_ptr<Blob>(new Blob(&iov, 1, ffunc, context));
+		return Create(&iov, 1, ffunc, context);
 	}
 
 	BlobPtr Blob::Create(struct iovec *iov, unsigned iov_len, BlobFreeFunc ffunc, void *context) {
-		return BlobPtr(new Blob(iov, iov_len, ffunc, context));
+		Blob *blob;
+		try {
+			blob = new Blob(iov, iov_len, ffunc, context);
+		} catch (...) {
+			// The buffers were handed over
+			for (unsigned i = 0; ffunc && i < iov_len; ++i) { ffunc(iov[i].iov_base, context); }
+			throw;
+		}
+		return BlobPtr(blob);
 	}
 
 	shared_ptr<Blob> Blob::CreateCopy(const void *ptr, unsigned len) {
@@ -49,7 +57,7 @@ namespace libvariant {
 			copied += iov[i].iov_len;
 		}
 		struct iovec v = { data, len };
-		return shared_ptr<Blob>(new Blob(&v, 1, MallocFree, 0));
+		return Create(&v, 1, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateFree(void *ptr, unsigned len) {
@@ -58,7 +66,7 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::CreateFree(struct iovec *iov, unsigned iov_len) {
-		return shared_ptr<Blob>(new Blob(iov, iov_len, MallocFree, 0));
+		return Create(iov, iov_len, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateReferenced(void *ptr, unsigned len) {
-- 
2.43.0


From c35371518a4ca4d26b1d2290083b66a949ddf6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 106/122] fix: release what a parser holds when memory runs out

---
 src/XMLPLISTParser.cc | 7 ++++++-
 src/YAMLParser.cc     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 3748cd5..af4c4c2 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -257,7 +257,12 @@ namespace libvariant {
 		}
 		xmlChar *content = xmlNodeGetContent(node);
 		if (content) {
-			AddText((const char*)content);
+			try {
+				AddText((const char*)content);
+			} catch (...) {
+				xmlFree(content);
+				throw;
+			}
 			xmlFree(content);
 		}
 	}
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index d53c622..bfd4ab8 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -181,9 +181,9 @@ namespace libvariant {
 
 				}
 			} catch (...) {
+				yaml_event_delete(&event);
 				err = true;
 				errorstr = "Exception from action...";
-				yaml_event_delete(&event);
 				throw;
 			}
 			yaml_event_delete(&event);
-- 
2.43.0


From 236227397e8f20acd78b29b538b26c1898c30523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 107/122] fix: raise an error when memory for a text runs out
 instead of cutting it

---
 src/BundleHdrEmitter.cc | 3 +++
 src/Extensions.cc       | 4 ++++
 src/JSONEmitter.cc      | 3 +++
 src/Path.cc             | 1 +
 src/SchemaLoader.cc     | 1 +
 src/Variant.cc          | 3 +++
 src/XMLPLISTEmitter.cc  | 3 +++
 src/YAMLEmitter.cc      | 3 +++
 8 files changed, 21 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 2d50e28..8dd941b 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -98,6 +98,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
@@ -105,6 +106,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
@@ -112,6 +114,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
diff --git a/src/Extensions.cc b/src/Extensions.cc
index 5efd67f..d86f814 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -132,6 +132,7 @@ namespace libvariant {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
 					tmp.imbue(std::locale::classic());
+					tmp.exceptions(std::ios::badbit);
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -145,6 +146,7 @@ namespace libvariant {
 		case Variant::MapType:
 			for( Variant::ConstMapIterator i(var.MapBegin()), e(var.MapEnd()); i != e; ++i ) {
 				stringstream tmp;
+				tmp.exceptions(std::ios::badbit);
 				if ( prefix.size() ) {
 					tmp << prefix + params["pathDelimiter"].AsString();
 				} else {
@@ -193,6 +195,7 @@ namespace libvariant {
 
 		for ( Variant::MapIterator i(flat.MapBegin()), e(flat.MapEnd()); i != e; ++i ) {
 			stringstream tmp;
+			tmp.exceptions(std::ios::badbit);
 
 			switch (i->second.GetType()) {
 			case Variant::ListType:
@@ -642,6 +645,7 @@ namespace libvariant {
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		ret.imbue(std::locale::classic());
+		ret.exceptions(std::ios::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 591b300..1a067f1 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -112,6 +112,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -120,6 +121,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -128,6 +130,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/Path.cc b/src/Path.cc
index 9512a7f..22eafba 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -89,6 +89,7 @@ namespace libvariant {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f2f45f5..1b46001 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -308,6 +308,7 @@ namespace libvariant {
 			}
 		}
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		for (std::vector<std::string>::iterator iv(output.begin()), ie(output.end()); iv != ie; ++iv) {
 			if (firstslash) {
 				oss << "/";
diff --git a/src/Variant.cc b/src/Variant.cc
index 377ed1f..1c70dc2 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -854,6 +854,7 @@ namespace libvariant {
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.imbue(std::locale::classic());
+			oss.exceptions(std::ios::badbit);
 			oss << that->i;
 			return oss.str();
 		}
@@ -914,6 +915,7 @@ namespace libvariant {
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.imbue(std::locale::classic());
+			oss.exceptions(std::ios::badbit);
 			oss << that->u;
 			return oss.str();
 		}
@@ -983,6 +985,7 @@ namespace libvariant {
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.imbue(std::locale::classic());
+			oss.exceptions(std::ios::badbit);
 			oss << that->f;
 			return oss.str();
 		}
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 5c01a4c..c43e9f2 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -152,6 +152,7 @@ namespace libvariant {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -161,6 +162,7 @@ namespace libvariant {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -170,6 +172,7 @@ namespace libvariant {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 12932fd..94a421f 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -336,6 +336,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
@@ -343,6 +344,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
@@ -350,6 +352,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
 		oss.imbue(std::locale::classic());
+		oss.exceptions(std::ios::badbit);
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From 81cea4ec150da0f2597f90187192d9275ae38444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:49 +0000
Subject: [PATCH 108/122] fix: release the XML writer when an emitter cannot be
 created

---
 src/XMLPLISTEmitter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index c43e9f2..ff36d08 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -62,6 +62,7 @@ namespace libvariant {
 			params.GetInto(indent, "indent", indent);
 			params.GetInto(precision, "precision", precision);
 		}
+		state.push_back(NONE);
 		InitXML();
 		xmlOutputBufferPtr xmloutput = xmlOutputBufferCreateIO(&XMLPLISTEmitterImpl::DoWrite,
 				&XMLPLISTEmitterImpl::DoClose,
@@ -74,13 +75,17 @@ namespace libvariant {
 			xmlOutputBufferClose(xmloutput);
 			HandleError("xmlNewTextWriter");
 		}
-		UpdateParams();
+		try {
+			UpdateParams();
+		} catch (...) {
+			xmlFreeTextWriter(writer);
+			throw;
+		}
 		if (xmlTextWriterStartDocument(writer, 0, 0, "yes") < 0) {
 			xmlFreeTextWriter(writer);
 			writer = 0;
 			HandleError("xmlTextWriterStartDocument");
 		}
-		state.push_back(NONE);
 	}
 
 	XMLPLISTEmitterImpl::~XMLPLISTEmitterImpl() {
-- 
2.43.0


From 494c335144651b15e47aaaefdaa7e9f36a133eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:27 +0000
Subject: [PATCH 109/122] fix: report negative limits in schemas instead of
 taking them as huge ones

---
 src/Schema.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8c14a69..617d458 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -383,10 +383,12 @@ namespace libvariant {
 		// TODO: Add v3 compatibility by checking required keys in properties?
 	}
 
+	bool IsCount(Variant v) { return v.IsNumber() && v >= 0; }
+
 	void ValidateObjectMinMaxProperties(SchemaContext &ctx, Variant schema, Variant data) {
 		if (schema.Contains("minProperties")) {
 			AutoSchemaPath spath(ctx, "minProperties");
-			if (schema["minProperties"].IsNumber()) {
+			if (IsCount(schema["minProperties"])) {
 				uintmax_t minprops = schema["minProperties"].AsUnsigned();
 				if (data.Size() < minprops) {
 					std::ostringstream oss;
@@ -394,12 +396,12 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minProperties\" must be a number");
+				ctx.AddSchemaError("\"minProperties\" must be a non-negative number");
 			}
 		}
 		if (schema.Contains("maxProperties")) {
 			AutoSchemaPath spath(ctx, "maxProperties");
-			if (schema["maxProperties"].IsNumber()) {
+			if (IsCount(schema["maxProperties"])) {
 				uintmax_t maxprops = schema["maxProperties"].AsUnsigned();
 				if (data.Size() > maxprops) {
 					std::ostringstream oss;
@@ -407,7 +409,7 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minProperties\" must be a number");
+				ctx.AddSchemaError("\"maxProperties\" must be a non-negative number");
 			}
 		}
 	}
@@ -477,7 +479,7 @@ namespace libvariant {
 	void ValidateArrayLength(SchemaContext &ctx, Variant schema, Variant data) {
 		if (schema.Contains("minItems")) {
 			AutoSchemaPath spath(ctx, "minItems");
-			if (schema["minItems"].IsNumber()) {
+			if (IsCount(schema["minItems"])) {
 				uintmax_t minItems = schema["minItems"].AsUnsigned();
 				if (data.Size() < minItems) {
 					std::ostringstream oss;
@@ -485,12 +487,12 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minItems\" must be a number");
+				ctx.AddSchemaError("\"minItems\" must be a non-negative number");
 			}
 		}
 		if (schema.Contains("maxItems")) {
 			AutoSchemaPath spath(ctx, "maxItems");
-			if (schema["maxItems"].IsNumber()) {
+			if (IsCount(schema["maxItems"])) {
 				uintmax_t maxItems = schema["maxItems"].AsUnsigned();
 				if (data.Size() > maxItems) {
 					std::ostringstream oss;
@@ -498,7 +500,7 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"maxItems\" must be a number");
+				ctx.AddSchemaError("\"maxItems\" must be a non-negative number");
 			}
 		}
 	}
@@ -627,7 +629,7 @@ namespace libvariant {
 		unsigned length = CharacterCount(data.AsString());
 		if (schema.Contains("minLength")) {
 			AutoSchemaPath spath(ctx, "minLength");
-			if (schema["minLength"].IsNumber()) {
+			if (IsCount(schema["minLength"])) {
 				if (length < schema["minLength"].AsUnsigned()) {
 					std::ostringstream oss;
 					oss << "String is too short (" << length << " chars), minimum "
@@ -635,12 +637,12 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minLength\" must be a number");
+				ctx.AddSchemaError("\"minLength\" must be a non-negative number");
 			}
 		}
 		if (schema.Contains("maxLength")) {
 			AutoSchemaPath spath(ctx, "maxLength");
-			if (schema["maxLength"].IsNumber()) {
+			if (IsCount(schema["maxLength"])) {
 				if (length > schema["maxLength"].AsUnsigned()) {
 					std::ostringstream oss;
 					oss << "String is too long (" << length << " chars), maximum "
@@ -648,7 +650,7 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"maxLength\" must be a number");
+				ctx.AddSchemaError("\"maxLength\" must be a non-negative number");
 			}
 		}
 	}
-- 
2.43.0


From 27197e392d108fd8fec2f130b5c1fe1194ef6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:33 +0000
Subject: [PATCH 110/122] fix: report keys in schema dependencies that are not
 strings

---
 src/Schema.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 617d458..60296e4 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -243,6 +243,10 @@ namespace libvariant {
 					} else if (i->second.IsList()) {
 						for (unsigned j = 0; j < i->second.Size(); ++j) {
 							AutoSchemaPath spath(ctx, j);
+							if (!i->second[j].IsString()) {
+								ctx.AddSchemaError("Elements of a dependency list must be strings");
+								continue;
+							}
 							ValidateObjectDependenciesHelper(ctx, i->second[j].AsString(), data);
 						}
 					} else if (i->second.IsMap()) {
-- 
2.43.0


From 82e58e940a7a557e3357cda09f45b0dd8a177f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:39 +0000
Subject: [PATCH 111/122] fix: report exclusive limits in schemas that are not
 booleans

---
 src/Schema.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 60296e4..302ee06 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -676,7 +676,10 @@ namespace libvariant {
 						<< " is less than minimum " << schema["minimum"].AsString();
 					ctx.AddError(oss.str());
 				}
-				if (schema.Contains("exclusiveMinimum") && schema["exclusiveMinimum"].AsBool()
+				if (schema.Contains("exclusiveMinimum") && !schema["exclusiveMinimum"].IsBool()) {
+					AutoSchemaPath spath(ctx, "exclusiveMinimum");
+					ctx.AddSchemaError("\"exclusiveMinimum\" must be a boolean");
+				} else if (schema.Contains("exclusiveMinimum") && schema["exclusiveMinimum"].AsBool()
 						&& data == schema["minimum"]) {
 					AutoSchemaPath spath(ctx, "exclusiveMinimum");
 					std::ostringstream oss;
@@ -698,7 +701,10 @@ namespace libvariant {
 						<< " is greater than maximum " << schema["maximum"].AsString();
 					ctx.AddError(oss.str());
 				}
-				if (schema.Contains("exclusiveMaximum") && schema["exclusiveMaximum"].AsBool()
+				if (schema.Contains("exclusiveMaximum") && !schema["exclusiveMaximum"].IsBool()) {
+					AutoSchemaPath spath(ctx, "exclusiveMaximum");
+					ctx.AddSchemaError("\"exclusiveMaximum\" must be a boolean");
+				} else if (schema.Contains("exclusiveMaximum") && schema["exclusiveMaximum"].AsBool()
 						&& data == schema["maximum"]) {
 					AutoSchemaPath spath(ctx, "exclusiveMaximum");
 					std::ostringstream oss;
-- 
2.43.0


From 205813a27cb9df0b16abbefad9e43962d41c824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:46 +0000
Subject: [PATCH 112/122] fix: report schema types that are not strings, and
 name the place of an unknown one

---
 src/Schema.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 302ee06..488bc5a 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -813,10 +813,15 @@ namespace libvariant {
 			} else if (*i == "string") {
 				if (data.IsString()) { return; }
 			} else {
-				AutoSchemaPath spath(ctx, index);
+				Path where(ctx.schema_path);
+				if (schema["type"].IsList()) { where.push_back(index); }
+				if (!i->IsString()) {
+					ctx.AddSchemaError(SchemaError("Schema types must be strings", where));
+					return;
+				}
 				std::ostringstream oss;
 				oss << "Invalid schema type: \"" << i->AsString() << "\"";
-				ctx.AddSchemaError(oss.str());
+				ctx.AddSchemaError(SchemaError(oss.str(), where));
 			}
 		}
 		oss << "invalid data type: \"" << data.GetType() << "\" expected";
-- 
2.43.0


From 694424644194d47059e49a66cd70bba6298957ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:53 +0000
Subject: [PATCH 113/122] fix: name the place of schema properties that are not
 an object

---
 src/Schema.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 488bc5a..0664f6e 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -319,6 +319,7 @@ namespace libvariant {
 		}
 		Variant properties = schema.Get("properties", Variant::MapType);
 		if (!properties.IsMap()) {
+			AutoSchemaPath spath(ctx, "properties");
 			ctx.AddSchemaError("\"properties\" must be an object");
 			properties = Variant::MapType;
 		}
-- 
2.43.0


From d9f7f5014b6fd22e656beb0a52b8486d7a619648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:55 +0000
Subject: [PATCH 114/122] fix: report a failed bundle reading from Error()

---
 src/BundleHdrParser.cc | 8 ++++++--
 src/BundleHdrParser.h  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index e594e31..917be0f 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -85,7 +85,7 @@ namespace libvariant {
 		return true;
 	}
 
-	int BundleHdrParserImpl::Run() {
+	int BundleHdrParserImpl::Run() try {
 		while (!action_stack.empty()) {
 			switch (state) {
 			case START:
@@ -181,6 +181,10 @@ namespace libvariant {
 			}
 		}
 		return 0;
+	} catch (const std::exception &e) {
+		state = FAILED;
+		errorstr = e.what();
+		throw;
 	}
 
 	void BundleHdrParserImpl::Reset() {
@@ -214,7 +218,7 @@ namespace libvariant {
 	}
 
 	bool BundleHdrParserImpl::Ok() const {
-		return state != STOP;
+		return state < STOP;
 	}
 
 	std::string BundleHdrParserImpl::ErrorStr() const {
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..0faf16a 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -26,7 +26,8 @@ namespace libvariant {
 			LIST,
 			END_MAP,
 			END,
-			STOP
+			STOP,
+			FAILED
 		};
 
 	public:
-- 
2.43.0


From 4dfe139041fa71a104f551445a8a4cab04065978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:01 +0000
Subject: [PATCH 115/122] fix: report a JSON parser not yet in the document as
 ok and any failed reading as an error

---
 src/JSONParser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 36ff906..1bb4600 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -165,7 +165,7 @@ namespace libvariant {
 		}
 	}
 
-	int JSONParserImpl::Run() {
+	int JSONParserImpl::Run() try {
 		while (!action_stack.empty()) {
 			switch (status) {
 			case S_START:
@@ -201,12 +201,16 @@ namespace libvariant {
 			}
 		}
 		return 0;
+	} catch (const std::exception &e) {
+		status = S_ERROR;
+		errorstr = e.what();
+		throw;
 	}
 
 	JSONParserImpl::Status_t JSONParserImpl::GetStatus() const { return status; }
 	bool JSONParserImpl::Done() const { return status == S_DONE; }
 	bool JSONParserImpl::Error() const { return status == S_ERROR; }
-	bool JSONParserImpl::Ok() const { return status == S_OK; }
+	bool JSONParserImpl::Ok() const { return status == S_START || status == S_BEGIN || status == S_OK; }
 
 	std::string JSONParserImpl::ErrorStr() const { return errorstr; }
 
-- 
2.43.0


From e59b89c9d37faa3bb66f96ead1b3cc216459a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:06 +0000
Subject: [PATCH 116/122] fix: report finished and failed plist readings,
 forget an old read failure on reset

---
 src/XMLPLISTParser.cc | 9 +++++++--
 src/YAMLParser.cc     | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index af4c4c2..86c437f 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -60,7 +60,7 @@ namespace libvariant {
 		}
 	}
 
-	int XMLPLISTParserImpl::Run() {
+	int XMLPLISTParserImpl::Run() try {
 		while (!action_stack.empty()) {
 			if (closed) { return 1; }
 			bool loop = true;
@@ -69,6 +69,7 @@ namespace libvariant {
 				statestack.back() = EndState;
 				break;
 			case EndState:
+				Close();
 				return 1;
 			case EmptyMapNode:
 				statestack.pop_back();
@@ -135,6 +136,10 @@ namespace libvariant {
 			}
 		}
 		return 0;
+	} catch (const std::exception &e) {
+		err = true;
+		errorstr = e.what();
+		throw;
 	}
 
 	bool XMLPLISTParserImpl::BeginElement(ParserActions *action, State_t nodetype) {
@@ -428,6 +433,6 @@ namespace libvariant {
 		statestack.push_back(StartState);
 		closed = false;
 		err = false;
-
+		read_error.clear();
 	}
 }
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index bfd4ab8..e594e13 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -211,6 +211,7 @@ namespace libvariant {
 		depth = 0;
 		eof = false;
 		err = false;
+		read_error.clear();
 		yaml_parser_delete(&parser);
 		yaml_parser_initialize(&parser);
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
-- 
2.43.0


From c9021e1d659cebddb7c962287300d5f7c740281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:37 +0000
Subject: [PATCH 117/122] fix: accept fractions of a second and offsets in the
 date-time format of schemas

---
 src/Schema.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 0664f6e..8197fe6 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -540,7 +540,8 @@ namespace libvariant {
 				// From V4 spec
 				// RFC 3339, section 5.6
 				patternstr = "^[0-9][0-9][0-9][0-9](-[0-1][0-9](-[0-3][0-9]"
-					"(T[0-9][0-9](:[0-9][0-9](:[0-9][0-9])?)?)?)?)?Z?$";
+					"([Tt][0-9][0-9](:[0-9][0-9](:[0-9][0-9](\\.[0-9]+)?)?)?)?)?)?"
+					"([Zz]|[+-][0-9][0-9]:[0-9][0-9])?$";
 			} else if (format == "date") {
 				// From V3 spec: should be format of YYYY-MM-DD
 				patternstr = "^[0-9][0-9][0-9][0-9]-[0-1][0-9]-[0-3][0-9]$";
-- 
2.43.0


From 73f0a5d171cf5162e425dae54fb5d8080ef987b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:34:36 +0000
Subject: [PATCH 118/122] fix: store the payload length below a null, report
 when it cannot be stored, take a null payload as none

---
 src/Payload.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index b6fb0c6..619b12e 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -36,6 +36,17 @@ namespace libvariant {
 			return;
 		}
 
+		if (on_len_path && v.IsNull()) {
+			Variant tmp;
+			tmp.SetPath(Path(len_i, state.len_end), state.payload_len);
+			state.e << tmp;
+			return;
+		}
+
+		if (on_len_path && state.payload_len > 0 && !v.IsMap() && !v.IsList()) {
+			throw std::runtime_error("libvariant: The path of the payload length leads through a value.");
+		}
+
 		bool output_len = false;
 		unsigned index = 0;
 		unsigned length = 0;
@@ -147,7 +158,7 @@ namespace libvariant {
 		bool ignore_payload = params.Get("ignore_payload", false).AsBool();
 		uintmax_t payload_length = 0;
 
-		bool payload_exists = v.HasPath(dpath);
+		bool payload_exists = v.HasPath(dpath) && !v.GetPath(dpath).IsNull();
 		BlobPtr blob;
 		if (payload_exists) {
 			blob = v.GetPath(dpath).AsBlob();
-- 
2.43.0


From 4a7a28d6c63d527449b367de8bfdf2a03ef4d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:00 +0000
Subject: [PATCH 119/122] fix: keep a read failure of a plist parser that
 happens while it is reset

---
 src/XMLPLISTParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 86c437f..f674dc7 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -425,6 +425,8 @@ namespace libvariant {
 		Close();
 		xmlFreeTextReader(reader);
 		reader = 0;
+		// Making the reader reads already
+		read_error.clear();
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
@@ -433,6 +435,5 @@ namespace libvariant {
 		statestack.push_back(StartState);
 		closed = false;
 		err = false;
-		read_error.clear();
 	}
 }
-- 
2.43.0


From c4d1540fcbf32207097ce987423a114cd9fdec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:39 +0000
Subject: [PATCH 120/122] fix: find identified schemas below properties named
 like keywords, not in default values

---
 src/SchemaLoader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 1b46001..f005566 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -408,7 +408,11 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum") {
+				if (IsSchemaMapKey(i->first) && i->second.IsMap()) {
+					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+						SearchForTrustedSchemas(m, j->second, uri);
+					}
+				} else if (i->first != "enum" && i->first != "default") {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
-- 
2.43.0


From d120eb8ef272b9dcfad6f31eed618c9412207fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:35:10 +0000
Subject: [PATCH 121/122] fix: do not share defaults and choices with the
 description a parser hands out

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index d5c270f..bc6da57 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1765,7 +1765,7 @@ namespace libvariant {
 
 	Variant ArgParseOptImpl::GetDescription() const {
 		Variant desc;
-		desc.Merge(opt);
+		desc.Merge(opt.Copy());
 		if (type == Variant::NullType) {
 			desc.Set("type", type);
 		} else {
-- 
2.43.0


From b276e7e6f7811155eef62a674f167c0d30824979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:59:49 +0000
Subject: [PATCH 122/122] fix: remember the anchors of YAML mapping keys

---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 3a48ea9..65f0f34 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -162,11 +162,11 @@ namespace libvariant {
 	   	}
 
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
+			state->Anchor(anchor, v);
 			if (expect_key) {
 				key = v.AsString();
 				expect_key = false;
 			} else {
-				state->Anchor(anchor, v);
 				result[key] = v;
 				expect_key = true;
 			}
-- 
2.43.0

