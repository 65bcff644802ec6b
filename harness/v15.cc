// V15: blobs keep their bytes however they are segmented, and are released exactly once.
#include "io.h"
#include <sys/uio.h>
#include <libxml/xmlerror.h>
using namespace vh;
using namespace libvariant;

static std::string b64(const std::string &s) {
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = (unsigned char)s[i] << 16;
		if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8;
		if (i + 2 < s.size()) v |= (unsigned char)s[i + 2];
		o += t[v >> 18];
		o += t[(v >> 12) & 63];
		o += i + 1 < s.size() ? t[(v >> 6) & 63] : '=';
		o += i + 2 < s.size() ? t[v & 63] : '=';
	}
	return o;
}
static std::string no_blanks(const std::string &s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) if (!isspace((unsigned char)s[i])) o += s[i];
	return o;
}

// Every segment handed to the library, and how often it came back.
struct Seg { void *p; int id; };
struct Tracked { std::string bytes; std::vector<Seg> segs; std::map<void *, int> released; bool maybe; };
static std::vector<Tracked *> all;
static void release(void *p, void *ctx) {
	Tracked *t = (Tracked *)ctx;
	t->released[p]++;
	// memory checkers see any later use
	if (t->released[p] == 1) free(p);
}
static std::vector<struct iovec> segments(Rng &r, const std::string &bytes, bool empties) {
	std::vector<struct iovec> v;
	size_t off = 0;
	int style = r.below(4);
	while (off < bytes.size() || v.empty()) {
		size_t left = bytes.size() - off, n = left;
		if (style == 0) n = std::min<size_t>(left, 1 + r.below(3));
		else if (style == 1) n = std::min<size_t>(left, 1 + r.below(left + 1));
		else if (style == 2) n = std::min<size_t>(left, 57);
		if (empties && r.chance(1, 4)) n = 0;
		struct iovec x;
		x.iov_base = malloc(n ? n : 1);
		x.iov_len = n;
		memcpy(x.iov_base, bytes.data() + off, n);
		v.push_back(x);
		off += n;
	}
	while (empties && r.chance(1, 5)) {
		struct iovec x;
		x.iov_base = malloc(1);
		x.iov_len = 0;
		v.push_back(x);
	}
	return v;
}
static BlobPtr tracked(Rng &r, const std::string &bytes, int &id) {
	Tracked *t = new Tracked;
	t->bytes = bytes;
	t->maybe = false;
	std::vector<struct iovec> v = segments(r, bytes, true);
	for (size_t i = 0; i < v.size(); ++i) { Seg s = { v[i].iov_base, (int)i }; t->segs.push_back(s); }
	id = all.size();
	all.push_back(t);
	if (v.size() == 1 && r.coin()) return Blob::Create(v[0].iov_base, v[0].iov_len, release, t);
	return Blob::Create(&v[0], v.size(), release, t);
}

static std::string bytes(Rng &r) {
	switch (r.below(6)) {
	case 0: return "";
	case 1: return std::string(r.range(1, 6), (char)r.below(256));
	case 2: { std::string s; for (int n = r.range(1, 400); n > 0; --n) s += (char)r.below(256); return s; }
	case 3: { std::string s; for (int n = 54 + r.below(8); n > 0; --n) s += (char)r.below(256); return s; }
	case 4: return gen_bytes(r, 20);
	default: return gen_bytes(r, r.chance(1, 30) ? 60000 : 300);
	}
}

static void contents(Ctx &c) {
	Rng &r = c.rng;
	std::string s = bytes(r), t = s;
	// the other one is equal, a prefix, an extension or differs in one byte
	switch (r.below(6)) {
	case 0: t = bytes(r); break;
	case 1: if (!t.empty()) t.resize(r.below(t.size())); break;
	case 2: t += (char)r.below(256); break;
	case 3: if (!t.empty()) t[r.below(t.size())] ^= (char)(1 << r.below(8)); break;
	default: break;
	}
	std::vector<struct iovec> v = segments(r, s, true), w = segments(r, t, true);
	BlobPtr a = Blob::CreateFree(&v[0], v.size()), b = Blob::CreateFree(&w[0], w.size());
	describe(cat("bytes ", printable(s, 400), " and ", printable(t, 400), " in ", v.size(), " and ", w.size(), " segments"));
	VH_CHECK(blob_bytes(a) == s, "bytes", "the segments changed");
	VH_CHECK(a->GetTotalLength() == s.size(), "length", a->GetTotalLength(), " for ", s.size());
	int want = s.compare(t), got = a->Compare(b), back = b->Compare(a);
	VH_CHECK((want == 0) == (got == 0), "compare-equal", want, " ", got);
	VH_CHECK((got < 0) == (back > 0) && (got == 0) == (back == 0), "compare-symmetry", got, " and ", back);
	VH_CHECK((want < 0) == (got < 0), "compare-order", want, " ", got);
	Variant va(a), vb(b);
	VH_CHECK((va == vb) == (want == 0), "variant-equal", want);
	VH_CHECK((va != vb) == (want != 0), "variant-unequal", want);
	VH_CHECK((va < vb) == (want < 0), "variant-order", want);
	BlobPtr k = a->Copy();
	VH_CHECK(blob_bytes(k) == s && k->GetTotalLength() == s.size() && k->Compare(a) == 0, "copy", "copied bytes differ");
	if (!s.empty()) {
		char *p = 0;
		for (unsigned i = 0; i < k->GetNumBuffers() && !p; ++i) if (k->GetLength(i)) p = (char *)k->GetPtr(i);
		*p ^= 1;
		VH_CHECK(blob_bytes(a) == s, "copy-shares", "changing the copy changed the original");
	}
	BlobPtr kk = Blob::CreateCopy(a->GetIOVec(), a->GetNumBuffers());
	VH_CHECK(blob_bytes(kk) == s, "create-copy", "bytes differ");
	BlobPtr ref = Blob::CreateReferenced(a->GetIOVec(), a->GetNumBuffers());
	VH_CHECK(blob_bytes(ref) == s && ref->Compare(a) == 0, "create-referenced", "bytes differ");
	count(s.empty() ? "empty" : "bytes");
	if (v.size() > 1) count("segmented");
	count(want == 0 ? "equal" : "different");

	// through every format that can hold them, with base64 that any reader understands
	std::string e = b64(s);
	for (int f = 0; f < 3; ++f) {
		Variant d = Variant::MapType;
		d["x"] = va;
		d["y"] = Variant(1);
		std::string text = Serialize(d, FORMATS[f]);
		VH_CHECK(no_blanks(text).find(e) != std::string::npos, cat("base64-", format_name(FORMATS[f])), printable(text, 900), " lacks ", printable(e, 900));
		Variant back = Deserialize(text, FORMATS[f]);
		if (s.empty() && !back["x"].IsBlob()) continue;      // an empty blob is not told apart everywhere
		VH_CHECK(back["x"].IsBlob(), cat("blob-kind-", format_name(FORMATS[f])), printable(text, 600));
		VH_CHECK(blob_bytes(back["x"].AsBlob()) == s, cat("blob-bytes-", format_name(FORMATS[f])), printable(text, 900));
		VH_CHECK(back["y"].AsInt() == 1, cat("after-blob-", format_name(FORMATS[f])), printable(text, 600));
		// written differently segmented, the text is the same
		d["x"] = Variant(Blob::CreateCopy(s.data(), s.size()));
		VH_CHECK(Serialize(d, FORMATS[f]) == text, cat("segmentation-shows-", format_name(FORMATS[f])), printable(text, 900));
		count(format_name(FORMATS[f]));
	}
	// text of other writers: any line length
	if (!s.empty()) {
		int width = 4 * r.range(1, 30);
		std::string lines, yaml;
		for (size_t i = 0; i < e.size(); i += width) {
			lines += "\n\t" + std::string(r.below(3), ' ') + e.substr(i, width);
			yaml += "\n  " + e.substr(i, width);
		}
		std::string x = "<plist version=\"1.0\"><dict><key>x</key><data>" + lines + "\n</data></dict></plist>";
		Variant back = DeserializeXMLPLIST(x);
		VH_CHECK(back["x"].IsBlob() && blob_bytes(back["x"].AsBlob()) == s, "foreign-xml", printable(x, 900));
		std::string y = "x: !!binary |" + yaml + "\n";
		back = DeserializeYAML(y);
		VH_CHECK(back["x"].IsBlob() && blob_bytes(back["x"].AsBlob()) == s, "foreign-yaml", printable(y, 900));
		count("foreign-text");
	}
	nontrivial(hash(s + "|" + t + cat(v.size(), " ", w.size())));
}

// What a handle keeps alive: the tracked blobs below it. Containers are shared on assignment.
struct Node { int blob; std::vector<std::shared_ptr<Node> > kids; std::map<std::string, std::shared_ptr<Node> > keys; Node() : blob(-1) {} };
typedef std::shared_ptr<Node> NodeP;
static void reach(const NodeP &n, std::set<int> &s) {
	if (!n) return;
	if (n->blob >= 0) s.insert(n->blob);
	for (size_t i = 0; i < n->kids.size(); ++i) reach(n->kids[i], s);
	for (std::map<std::string, NodeP>::iterator i = n->keys.begin(); i != n->keys.end(); ++i) reach(i->second, s);
}
static bool holds(const NodeP &n, const Node *what) {
	if (!n) return false;
	if (n.get() == what) return true;
	for (size_t i = 0; i < n->kids.size(); ++i) if (holds(n->kids[i], what)) return true;
	for (std::map<std::string, NodeP>::iterator i = n->keys.begin(); i != n->keys.end(); ++i) if (holds(i->second, what)) return true;
	return false;
}

static void lifetimes(Ctx &c) {
	Rng &r = c.rng;
	struct Clean { ~Clean() { for (size_t i = 0; i < all.size(); ++i) delete all[i]; all.clear(); } } clean;
	std::string log;
	{
		const int N = 5, P = 3;
		Variant v[N];
		NodeP n[N];
		BlobPtr p[P];
		int pid[P] = { -1, -1, -1 };
		for (int steps = r.range(4, 40); steps > 0; --steps) {
			int a = r.below(N), b = r.below(N), q = r.below(P), op = r.below(13);
			log += cat(" ", op, ":", a, ",", b, ",", q);
			describe(log);
			std::string key = cat("k", r.below(3));
			switch (op) {
			case 0: case 1: { int id; p[q] = tracked(r, r.chance(1, 5) ? "" : gen_bytes(r, 40), id); pid[q] = id; count("created"); break; }
			case 2: if (p[q]) { v[a] = Variant(p[q]); n[a] = NodeP(new Node); n[a]->blob = pid[q]; count("stored"); } break;
			case 3: v[a] = v[b]; n[a] = n[b]; count("assigned"); break;
			case 4: v[a] = Variant(); n[a].reset(); break;
			case 5: v[a] = Variant(r.coin() ? Variant::ListType : Variant::MapType); n[a] = NodeP(new Node); break;
			case 6: case 7:
				if (n[a] && n[b] && !holds(n[b], n[a].get())) {
					if (v[a].IsList()) { v[a].Append(v[b]); n[a]->kids.push_back(n[b]); count("nested"); }
					else if (v[a].IsMap()) { v[a].Set(key, v[b]); n[a]->keys[key] = n[b]; count("nested"); }
				}
				break;
			case 8:
				if (n[a] && v[a].IsMap() && n[a]->keys.count(key)) { v[a].Erase(key); n[a]->keys.erase(key); count("erased"); }
				else if (n[a] && v[a].IsList() && v[a].Size()) { v[a].AsList().pop_back(); n[a]->kids.pop_back(); count("erased"); }
				break;
			case 9: if (n[a] && v[a].IsBlob()) { p[q] = v[a].AsBlob(); pid[q] = n[a]->blob; count("pointer-taken"); } break;
			case 10: {
				// a deep copy may or may not use the same bytes
				std::set<int> s;
				reach(n[b], s);
				for (std::set<int>::iterator i = s.begin(); i != s.end(); ++i) all[*i]->maybe = true;
				v[a] = v[b].Copy();
				n[a].reset();
				count("copied");
				break;
			}
			case 11: {
				// writing uses the blob only while it lasts, also when it fails
				Sink s(r.next());
				if (r.coin()) { s.limit = r.below(60); s.how = Sink::THROW_RUNTIME; }
				SerializeType f = FORMATS[r.below(3)];
				try {
					shared_ptr<EmitterOutput> out(new SinkOut(&s));
					Emitter e = CreateEmitter(out, f);
					e << v[a];
					e.Close();
					count("written");
				} catch (const std::exception &) { count("write-failed"); }
				break;
			}
			default: p[q].reset(); pid[q] = -1; break;
			}
			std::set<int> alive;
			for (int i = 0; i < N; ++i) reach(n[i], alive);
			for (int i = 0; i < P; ++i) if (p[i]) alive.insert(pid[i]);
			for (size_t i = 0; i < all.size(); ++i) {
				Tracked *t = all[i];
				for (size_t j = 0; j < t->segs.size(); ++j) {
					int k = t->released.count(t->segs[j].p) ? t->released[t->segs[j].p] : 0;
					VH_CHECK(k <= 1, "released-twice", "blob ", i, " segment ", j, " after", log);
					if (alive.count(i)) VH_CHECK(k == 0, "released-early", "blob ", i, " segment ", j, " after", log);
					else if (!t->maybe) VH_CHECK(k == 1, "not-released", "blob ", i, " segment ", j, " after", log);
				}
			}
			for (int i = 0; i < P; ++i) if (p[i]) VH_CHECK(blob_bytes(p[i]) == all[pid[i]]->bytes, "bytes-changed", "blob ", pid[i], " after", log);
			for (int i = 0; i < N; ++i) if (n[i] && n[i]->blob >= 0) VH_CHECK(blob_bytes(v[i].AsBlob()) == all[n[i]->blob]->bytes, "bytes-changed", "blob ", n[i]->blob, " after", log);
		}
	}
	for (size_t i = 0; i < all.size(); ++i)
		for (size_t j = 0; j < all[i]->segs.size(); ++j)
			VH_CHECK(all[i]->released[all[i]->segs[j].p] == 1, "release-count-at-end", "blob ", i, " segment ", j, " released ", all[i]->released[all[i]->segs[j].p], " times after", log);
	if (!all.empty()) nontrivial(hash(log));
}

static void one(Ctx &c) { if (c.rng.coin()) contents(c); else lifetimes(c); }
static void quiet(void *, const char *, ...) {}
int main(int argc, char **argv) { xmlSetGenericErrorFunc(0, quiet); return vh::run(argc, argv, one); }
