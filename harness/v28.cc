// V28: event streams from parsers to receivers and emitters, and parser reuse.
#include "io.h"
#include <libxml/xmlerror.h>
#include <sstream>
#include <fstream>
#include <math.h>
using namespace vh;
using namespace libvariant;

// Input whose text can be replaced.
class Refill : public ParserInput {
public:
	Refill(Rng &r) : rng(r.next()), pos(0), fault(-1) {}
	void set(const std::string &t, size_t f = (size_t)-1) { text = t; pos = 0; fault = f; failed = false; }
	virtual void const *GetPtr(unsigned &len) {
		if (pos >= fault) { failed = true; throw std::runtime_error("injected read failure"); }
		unsigned left = (fault < text.size() ? fault : text.size()) - pos;
		if (!left) { len = 0; return 0; }
		unsigned give = rng.chance(1, 3) ? 1 + rng.below(left) : left;
		if (give < len) give = len < left ? len : left;
		len = give;
		// exactly as long as promised
		hold.assign(text.begin() + pos, text.begin() + pos + give);
		hold.shrink_to_fit();
		return &hold[0];
	}
	virtual void Release(unsigned len) {
		VH_CHECK(len <= text.size() - pos, "released-too-much", len, " of ", text.size() - pos);
		pos += len;
	}
	virtual bool Eof() const { return pos == text.size(); }
	Rng rng;
	std::string text;
	std::vector<char> hold;
	size_t pos, fault;             // reading fails from byte fault on
	bool failed = false;
};

// Receiver that checks the nesting and collects the document.
class Recorder : public ParserActions {
public:
	Recorder() : done(false), begun(false), events(0), stop_at(0) {}
	struct Level { MV v; bool key; std::string name; int length; };
	std::vector<Level> stack;
	MV doc;
	bool done, begun;
	size_t events;
	size_t stop_at;                // this event is refused

	void event() { ++events; if (events == stop_at) throw std::runtime_error("receiver refuses"); VH_CHECK(!done, "event-after-end", "event ", events); }
	void value(const MV &v) {
		event();
		if (stack.empty()) {
			VH_CHECK(!have, "two-roots", "event ", events);
			have = true;
			doc = v;
			if (!begun) done = true;
			return;
		}
		Level &l = stack.back();
		if (l.v.k == K_LIST) { l.v.l.push_back(v); return; }
		if (l.key) {
			VH_CHECK(v.k == K_STR, "key-kind", "event ", events, " ", show(v));
			l.name = v.s;
		} else l.v.m[l.name] = v;
		l.key = !l.key;
	}
	void open(const MV &v, int length) {
		event();
		if (!stack.empty() && stack.back().v.k == K_MAP) VH_CHECK(!stack.back().key, "container-key", "event ", events);
		Level l;
		l.v = v; l.key = true; l.length = length;
		stack.push_back(l);
	}
	void close(int kind) {
		event();
		VH_CHECK(!stack.empty() && stack.back().v.k == kind, "nesting", "event ", events);
		Level l = stack.back();
		stack.pop_back();
		if (kind == K_MAP) VH_CHECK(l.key, "key-without-value", l.name);
		size_t n = kind == K_MAP ? l.v.m.size() : l.v.l.size();
		VH_CHECK(l.length < 0 || (size_t)l.length == n, "announced-length", l.length, " for ", n);
		--events;
		value(l.v);
	}
	virtual void BeginDocument(ParserImpl *) { event(); VH_CHECK(!begun && stack.empty(), "begin-document", ""); begun = true; }
	virtual void EndDocument(ParserImpl *) { event(); VH_CHECK(begun && stack.empty(), "end-document", stack.size()); done = true; }
	virtual void BeginMap(ParserImpl *, int n, const char *, const char *) { open(MV::Map(), n); }
	virtual void EndMap(ParserImpl *) { close(K_MAP); }
	virtual void BeginList(ParserImpl *, int n, const char *, const char *) { open(MV::List(), n); }
	virtual void EndList(ParserImpl *) { close(K_LIST); }
	virtual void Scalar(ParserImpl *, double v, const char *, const char *) { value(from_variant(Variant(v))); }
	virtual void Scalar(ParserImpl *, const char *s, unsigned n, const char *, const char *) { value(MV::Str(std::string(s, n))); }
	virtual void Scalar(ParserImpl *, bool v, const char *, const char *) { value(from_variant(Variant(v))); }
	virtual void Null(ParserImpl *, const char *, const char *) { value(MV::Null()); }
	virtual void Scalar(ParserImpl *, intmax_t v, const char *, const char *) { value(from_variant(Variant(v))); }
	virtual void Scalar(ParserImpl *, uintmax_t v, const char *, const char *) { value(from_variant(Variant(v))); }
	virtual void Scalar(ParserImpl *, BlobPtr b, const char *, const char *) { value(from_variant(Variant(b))); }
private:
	bool have = false;
};

// Receiver that passes everything on to an emitter.
class Forward : public ParserActions {
public:
	Forward(Emitter &e) : e(e), begun(false), done(false), depth(0) {}
	Emitter &e;
	bool begun, done;
	int depth;
	void root() { if (!depth && !begun) done = true; }
	virtual void BeginDocument(ParserImpl *) { begun = true; e.BeginDocument(); }
	virtual void EndDocument(ParserImpl *) { e.EndDocument(); done = true; }
	virtual void BeginMap(ParserImpl *, int n, const char *, const char *) { ++depth; e.BeginMap(n); }
	virtual void EndMap(ParserImpl *) { e.EndMap(); --depth; root(); }
	virtual void BeginList(ParserImpl *, int n, const char *, const char *) { ++depth; e.BeginList(n); }
	virtual void EndList(ParserImpl *) { e.EndList(); --depth; root(); }
	virtual void Scalar(ParserImpl *, double v, const char *, const char *) { e.Emit(v); root(); }
	virtual void Scalar(ParserImpl *, const char *s, unsigned n, const char *, const char *) { e.Emit(std::string(s, n)); root(); }
	virtual void Scalar(ParserImpl *, bool v, const char *, const char *) { e.Emit(v); root(); }
	virtual void Null(ParserImpl *, const char *, const char *) { e.EmitNull(); root(); }
	virtual void Scalar(ParserImpl *, intmax_t v, const char *, const char *) { e.Emit(v); root(); }
	virtual void Scalar(ParserImpl *, uintmax_t v, const char *, const char *) { e.Emit(v); root(); }
	virtual void Scalar(ParserImpl *, BlobPtr b, const char *, const char *) { e.Emit((ConstBlobPtr)b); root(); }
};

// A scalar given as a value of some C++ type that holds it.
template <class T> static bool given(Emitter &e, const MV &v, bool take) {
	bool fits = v.k == K_INT ? (intmax_t)(T)v.i == v.i : (uintmax_t)(T)v.u == v.u;
	if (take && fits) { if (v.k == K_INT) e << (T)v.i; else e << (T)v.u; }
	return take && fits;
}
static void plainly(Rng &r, Emitter &e, const MV &v) {
	count("plain-value");
	switch (v.k) {
	case K_NULL: e.EmitNull(); break;
	case K_BOOL: e << v.b; break;
	case K_INT:
		if (!given<char>(e, v, r.coin()) && !given<short>(e, v, r.coin()) && !given<int>(e, v, r.coin()) && !given<long>(e, v, r.coin())) given<long long>(e, v, true);
		break;
	case K_UINT:
		if (!given<unsigned char>(e, v, r.coin()) && !given<unsigned short>(e, v, r.coin()) && !given<unsigned>(e, v, r.coin()) && !given<unsigned long>(e, v, r.coin())) given<unsigned long long>(e, v, true);
		break;
	case K_FLOAT:
		if (fabs(v.f) < 1e30 && (double)(float)v.f == v.f && r.coin()) e << (float)v.f; else e << v.f;
		break;
	case K_STR:
		if (v.s.find('\0') == std::string::npos && r.coin()) e << v.s.c_str(); else e << v.s;
		break;
	default: e << to_variant(v);
	}
}

static unsigned flushes = 0;       // one in this many steps is followed by a flush
static void emit(Rng &r, Emitter &e, const MV &v) {
	bool known = r.coin();
	if (flushes && r.chance(1, flushes)) e.Flush();
	switch (v.k) {
	case K_LIST:
		e.BeginList(known ? (int)v.l.size() : -1);
		for (size_t i = 0; i < v.l.size(); ++i) emit(r, e, v.l[i]);
		e.EndList();
		break;
	case K_MAP:
		e.BeginMap(known ? (int)v.m.size() : -1);
		for (std::map<std::string, MV>::const_iterator i = v.m.begin(); i != v.m.end(); ++i) {
			if (r.coin()) e.Emit(i->first); else e.Emit(i->first.c_str());
			emit(r, e, i->second);
		}
		e.EndMap();
		break;
	default: if (r.coin()) e << to_variant(v); else plainly(r, e, v);
	}
}

static void events(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	std::string text = Serialize(to_variant(doc, r), t, gen_params(r, t));
	describe(cat(format_name(t), " ", show(doc, 3000), " | ", text));
	MV want = from_variant(Deserialize(text, t));
	shared_ptr<Refill> in(new Refill(r));
	in->set(text);
	Parser p = CreateParser(in, t);
	shared_ptr<Recorder> rec(new Recorder);
	p.PushAction(rec);
	while (!rec->done && p.Run() == 0);
	VH_CHECK(rec->done, "unfinished", format_name(t), " ", printable(text, 1500));
	std::string d = diff(want, rec->doc);
	VH_CHECK(d.empty(), "events-differ", format_name(t), " ", d, " | ", printable(text, 1500));
	VH_CHECK(p.PopAction() == rec, "receiver-stack", format_name(t));
	count(cat("events-", format_name(t)).c_str());
	nontrivial(mix(hash(text), 1));
}

static void forward(Ctx &c) {
	Rng &r = c.rng;
	// what every text format can hold
	SerializeType from = FORMATS[r.below(4)], to = FORMATS[r.below(3)];
	MV doc = gen_doc(r, from == SERIALIZE_BUNDLEHDR ? from : SERIALIZE_XMLPLIST);
	if (doc.k != K_LIST && doc.k != K_MAP) { MV l = MV::List(); l.l.push_back(doc); doc = l; }
	std::string text = Serialize(to_variant(doc, r), from, gen_params(r, from));
	Variant params = gen_params(r, to);
	describe(cat(format_name(from), " to ", format_name(to), " ", show(doc, 3000), " | ", text));
	MV want = from_variant(Deserialize(text, from));
	shared_ptr<Refill> in(new Refill(r));
	in->set(text);
	Parser p = CreateParser(in, from);
	std::stringbuf sb;
	{
		Emitter e = CreateEmitter(CreateEmitterOutput(&sb), to, params);
		shared_ptr<Forward> f(new Forward(e));
		p.PushAction(f);
		while (!f->done && p.Run() == 0);
		VH_CHECK(f->done, "forward-unfinished", format_name(from), " to ", format_name(to), " ", printable(text, 1500));
		p.PopAction();
		e.Close();
	}
	MV got;
	try { got = from_variant(Deserialize(sb.str(), to)); }
	catch (const std::exception &e) { throw Fail(cat("forward-unreadable-", format_name(to)), cat(format_name(from), " ", e.what(), " | ", printable(text, 1000), " | ", printable(sb.str(), 1000))); }
	std::string d = diff(want, got);
	VH_CHECK(d.empty(), cat("forward-", format_name(to)), format_name(from), " ", d, " | ", printable(text, 1000), " | ", printable(sb.str(), 1000));
	count(cat(format_name(from), "-to-", format_name(to)).c_str());
	nontrivial(mix(hash(text), 10 + to));
}

static std::string slurp(const std::string &name) {
	std::ifstream f(name.c_str(), std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

// What was emitted before a flush has arrived, and flushing changes nothing else.
static void flushed(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	Variant params = gen_params(r, t);
	std::string name = scratch() + "/flushed";
	bool file = r.coin();
	describe(cat(format_name(t), file ? " file " : " stream ", show(doc, 3000)));
	std::stringbuf plain;
	{
		Emitter e = CreateEmitter(CreateEmitterOutput(&plain), t, params);
		e.BeginDocument();
		e << to_variant(doc);
		e.EndDocument();
		e.Close();
	}
	std::stringbuf sb;
	std::string arrived, all;
	MV want = from_variant(Deserialize(plain.str(), t));
	FILE *f = file ? fopen(name.c_str(), "wb") : 0;
	VH_CHECK(!file || f, "harness-file", name);
	{
		Emitter e = CreateEmitter(file ? CreateEmitterOutput(f) : CreateEmitterOutput(&sb), t, params);
		e.BeginDocument();
		flushes = r.range(1, 6);
		emit(r, e, doc);
		flushes = 0;
		e.EndDocument();
		e.Flush();
		arrived = file ? slurp(name) : sb.str();
		e.Close();
	}
	if (file) fclose(f);
	all = file ? slurp(name) : sb.str();
	if (file) remove(name.c_str());
	VH_CHECK(all == plain.str(), cat("flush-changes-", format_name(t)), printable(plain.str(), 1000), " | ", printable(all, 1000));
	MV got;
	try { got = from_variant(Deserialize(arrived, t)); }
	catch (const std::exception &e) { throw Fail(cat("flush-unreadable-", format_name(t)), cat(e.what(), " | ", printable(arrived, 1000), " of ", printable(all, 1000))); }
	std::string d = diff(want, got);
	VH_CHECK(d.empty(), cat("flush-lost-", format_name(t)), d, " | ", printable(arrived, 1000), " of ", printable(all, 1000));
	count(cat(file ? "flushed-file-" : "flushed-stream-", format_name(t)).c_str());
	nontrivial(mix(hash(all), 5));
}

static void driven(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	MV doc = gen_doc(r, t);
	Variant params = gen_params(r, t);
	describe(cat(format_name(t), " ", show(doc, 3000)));
	std::string out[2];
	for (int i = 0; i < 2; ++i) {
		std::stringbuf sb;
		{
			Emitter e = CreateEmitter(CreateEmitterOutput(&sb), t, params);
			e.BeginDocument();
			if (i) emit(r, e, doc); else e << to_variant(doc);
			e.EndDocument();
			e.Close();
		}
		out[i] = sb.str();
	}
	VH_CHECK(out[0] == out[1], cat("driven-", format_name(t)), printable(out[0], 1000), " | ", printable(out[1], 1000));
	count(cat("driven-", format_name(t)).c_str());
	nontrivial(mix(hash(out[0]), 2));
}

// One parser for a history of documents and errors.
static void reuse(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	shared_ptr<Refill> in(new Refill(r));
	shared_ptr<Recorder> bottom(new Recorder);
	Parser p = CreateParser(in, t);
	p.PushAction(bottom);
	std::string trace = format_name(t);
	bool after_error = false;
	for (int n = r.range(2, 6); n > 0; --n) {
		MV doc = gen_doc(r, t);
		if (t == SERIALIZE_BUNDLEHDR && r.coin()) for (int k = r.range(1, 3); k > 0; --k) {
			MV l = MV::List();
			for (int m = r.range(2, 6); m > 0; --m) l.l.push_back(r.coin() ? MV::Int(r.below(100)) : MV::Str(std::string(2, 'a' + r.below(26))));
			doc.m[cat("L", k)] = l;
		}
		std::string text = Serialize(to_variant(doc, r), t, gen_params(r, t));
		bool whole = r.chance(1, 2);
		int stop = whole ? 0 : (int)r.below(4);      // 1: the receiver refuses an event, 2: reading is given up
		if (stop > 2) stop = 0;
		bool fault = !whole && !stop && r.chance(1, 3);
		if (!whole && !stop && !fault) text = r.coin() ? text.substr(0, r.below(text.size() + 1)) : corrupt(r, text);
		bool recorder = whole && r.coin();
		trace += cat(whole ? " | read " : stop == 1 ? " | refuse an event of " : stop ? " | give up " : fault ? " | fail in " : " | try ", text);
		describe(trace);
		if (fault) in->set(text, r.below(text.size() + 1)); else in->set(text);
		p.Reset();
		MV want, got;
		if (whole) want = from_variant(Deserialize(text, t));
		shared_ptr<Recorder> rec(new Recorder);
		if (stop) {
			size_t at = 1 + r.below(2 * nodes(doc) + 3);
			if (stop == 1) rec->stop_at = at;
			bool refused = false;
			p.PushAction(rec);
			try { while (!rec->done && rec->events < at && p.Run() == 0); }
			catch (const Fail &) { throw; }
			catch (const std::exception &) { refused = true; }
			VH_CHECK(p.PopAction() == rec, "reuse-stack", printable(trace, 2500));
			VH_CHECK(refused == (rec->stop_at && rec->events >= rec->stop_at), "refusal", refused ? "an error without a refusal" : "the refusal did not stop the parser", " | ", printable(trace, 2500));
			if (rec->done) { in->set(""); }
			else { count(cat(stop == 1 ? "refused-event-" : "given-up-", format_name(t)).c_str()); after_error = true; }
			VH_CHECK(bottom->events == 0, "reuse-receiver", "the receiver below got ", bottom->events, " events | ", printable(trace, 2500));
			continue;
		}
		try {
			if (recorder) {
				p.PushAction(rec);
				while (!rec->done && p.Run() == 0);
				VH_CHECK(p.PopAction() == rec, "reuse-stack", printable(trace, 2500));
				VH_CHECK(rec->done, "reuse-unfinished", printable(trace, 2500));
				got = rec->doc;
			} else {
				Variant v = ParseVariant(p);
				if (whole) got = from_variant(v);
			}
		} catch (const Fail &) { throw; }
		catch (const std::exception &e) {
			VH_CHECK(!whole, cat(after_error ? "reuse-after-error-" : "reuse-", format_name(t), "-refused"), e.what(), " | ", printable(trace, 2500));
			count(fault ? "reuse-fault" : "reuse-error");
			after_error = true;
			VH_CHECK(bottom->events == 0, "reuse-receiver", "the receiver below got ", bottom->events, " events | ", printable(trace, 2500));
			continue;
		}
		if (whole) {
			std::string d = diff(want, got);
			VH_CHECK(d.empty(), cat(after_error ? "reuse-after-error-" : "reuse-", format_name(t)), d, " | ", printable(trace, 2500));
			count(cat(after_error ? "after-error-" : "reuse-", format_name(t)).c_str());
			VH_CHECK(!p.Error(), "reuse-error-flag", printable(trace, 2500));
			after_error = false;
		}
		VH_CHECK(bottom->events == 0, "reuse-receiver", "the receiver below got ", bottom->events, " events | ", printable(trace, 2500));
	}
	VH_CHECK(p.PopAction() == bottom, "reuse-leftover", "a receiver was left on the parser | ", printable(trace, 2500));
	nontrivial(mix(hash(trace), 3));
}

// Receiver that takes everything.
class Taker : public ParserActions {
public:
	Taker() : events(0), refuse(0) {}
	size_t events, refuse;
	void event() { if (++events == refuse) throw std::runtime_error("receiver refuses"); }
	virtual void BeginDocument(ParserImpl *) { event(); }
	virtual void EndDocument(ParserImpl *) { event(); }
	virtual void BeginMap(ParserImpl *, int, const char *, const char *) { event(); }
	virtual void EndMap(ParserImpl *) { event(); }
	virtual void BeginList(ParserImpl *, int, const char *, const char *) { event(); }
	virtual void EndList(ParserImpl *) { event(); }
	virtual void Alias(ParserImpl *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, double, const char *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, const char *, unsigned, const char *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, bool, const char *, const char *) { event(); }
	virtual void Null(ParserImpl *, const char *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, intmax_t, const char *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, uintmax_t, const char *, const char *) { event(); }
	virtual void Scalar(ParserImpl *, BlobPtr, const char *, const char *) { event(); }
};

// What a parser says about itself after each step.
static void states(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	std::string name = format_name(t);
	shared_ptr<Refill> in(new Refill(r));
	shared_ptr<Taker> take(new Taker);
	Parser p = CreateParser(in, t);
	p.PushAction(take);
	std::string trace = name;
	for (int n = r.range(1, 4), step = 0; n > 0; --n, ++step) {
		std::string text = Serialize(to_variant(gen_doc(r, t), r), t, gen_params(r, t));
		int how = r.below(5);
		if (how == 1) text = text.substr(0, r.below(text.size() + 1));
		if (how == 2) text = corrupt(r, text);
		in->set(text, how == 3 ? r.below(text.size() + 1) : (size_t)-1);
		take->events = 0;
		take->refuse = how == 4 ? 1 + r.below(8) : 0;
		trace += cat(how == 3 ? " | fail in " : how == 4 ? " | refuse an event of " : " | read ", text);
		describe(trace);
		if (step || r.coin()) p.Reset();
		VH_CHECK(p.Ok() && !p.Done() && !p.Error(), cat("state-fresh-", name), "ok ", p.Ok(), " done ", p.Done(), " error ", p.Error(), " | ", printable(trace, 2000));
		int ret = 0;
		bool failed = false;
		size_t runs = 0;
		while (ret == 0) {
			VH_CHECK(++runs < 1000000, "state-endless", printable(trace, 2000));
			try { ret = p.Run(); }
			catch (const Fail &) { throw; }
			catch (const std::exception &) { failed = true; break; }
			if (ret == 0) {
				VH_CHECK(p.Ok() && !p.Error(), cat("state-going-", name), "ok ", p.Ok(), " error ", p.Error(), " | ", printable(trace, 2000));
				if (p.Done()) {
					size_t before = take->events;
					ret = p.Run();
					VH_CHECK(ret == 1 && take->events == before, cat("state-done-early-", name), ret, " | ", printable(trace, 2000));
				}
			}
		}
		if (failed) {
			std::string why = how == 3 ? "fault-" : take->refuse && take->events >= take->refuse ? "refused-" : "syntax-";
			VH_CHECK(p.Error(), cat("state-", why, name), printable(trace, 2000));
			VH_CHECK(!p.Ok(), cat("state-ok-", why, name), printable(trace, 2000));
			VH_CHECK(!p.ErrorStr().empty(), cat("state-message-", why, name), printable(trace, 2000));
			if (how == 3 && in->failed) VH_CHECK(p.ErrorStr().find("injected") != std::string::npos, cat("state-read-message-", name), p.ErrorStr(), " | ", printable(trace, 2000));
			if (how != 3) VH_CHECK(p.ErrorStr().find("injected") == std::string::npos, cat("state-old-message-", name), p.ErrorStr(), " | ", printable(trace, 2000));
			count(cat("state-", why, name).c_str());
			continue;
		}
		VH_CHECK(p.Done() && !p.Ok() && !p.Error(), cat("state-done-", name), "ok ", p.Ok(), " done ", p.Done(), " error ", p.Error(), " | ", printable(trace, 2000));
		size_t before = take->events;
		VH_CHECK(p.Run() == 1 && take->events == before, cat("state-again-", name), take->events - before, " events | ", printable(trace, 2000));
		count(cat("state-done-", name).c_str());
	}
	p.PopAction();
	nontrivial(mix(hash(trace), 4));
}

static void quiet(void *, const char *, ...) {}
static void one(Ctx &c) {
	switch (c.rng.below(6)) {
	case 0: events(c); break;
	case 1: forward(c); break;
	case 2: driven(c); break;
	case 3: states(c); break;
	case 4: flushed(c); break;
	default: reuse(c);
	}
}
int main(int argc, char **argv) {
	xmlSetGenericErrorFunc(0, quiet);
	return vh::run(argc, argv, one);
}
