// V29: reading a document consults nothing but the given input. Calls that open
// files, make connections or start programs are watched while the library works
// on documents that try to reach a canary file and a listener on the loopback
// interface; the canary is also watched by the kernel, and its content must not
// turn up anywhere.
#include "model.h"
#include "io.h"
#include <Variant/Variant.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Extensions.h>
#include <Variant/Payload.h>
#include <Variant/ArgParse.h>
#include <Variant/GuessFormat.h>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <locale.h>
#include <netdb.h>
#include <netinet/in.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <sys/inotify.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;
using namespace libvariant;

//------------------------------------------------------------ the watched calls

static bool watching = false;
static std::vector<std::string> *events = 0;
static void event(const char *call, const char *what) {
	if (!watching) return;
	watching = false;
	events->push_back(std::string(call) + " " + (what ? what : ""));
	watching = true;
}
template<typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }

#define OPEN(NAME) \
	extern "C" int NAME(const char *path, int flags, ...) { \
		va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
		event(#NAME, path); \
		static int (*f)(const char *, int, ...) = real<int (*)(const char *, int, ...)>(#NAME); \
		return f(path, flags, mode); \
	}
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
	extern "C" int NAME(int dir, const char *path, int flags, ...) { \
		va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
		event(#NAME, path); \
		static int (*f)(int, const char *, int, ...) = real<int (*)(int, const char *, int, ...)>(#NAME); \
		return f(dir, path, flags, mode); \
	}
OPENAT(openat)
OPENAT(openat64)
#define FOPEN(NAME) \
	extern "C" FILE *NAME(const char *path, const char *mode) { \
		event(#NAME, path); \
		static FILE *(*f)(const char *, const char *) = real<FILE *(*)(const char *, const char *)>(#NAME); \
		return f(path, mode); \
	}
FOPEN(fopen)
FOPEN(fopen64)
extern "C" int connect(int fd, const struct sockaddr *a, socklen_t n) {
	event("connect", "");
	if (watching) { errno = ECONNREFUSED; return -1; }
	static int (*f)(int, const struct sockaddr *, socklen_t) = real<int (*)(int, const struct sockaddr *, socklen_t)>("connect");
	return f(fd, a, n);
}
extern "C" int getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r) {
	event("getaddrinfo", h);
	if (watching) return EAI_FAIL;
	static int (*f)(const char *, const char *, const struct addrinfo *, struct addrinfo **) = real<int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **)>("getaddrinfo");
	return f(h, s, i, r);
}
// Nothing is ever started, removed or renamed here: these are only recorded.
extern "C" int system(const char *c) { event("system", c); errno = EPERM; return -1; }
extern "C" FILE *popen(const char *c, const char *) { event("popen", c); errno = EPERM; return 0; }
extern "C" int execve(const char *p, char *const *, char *const *) { event("execve", p); errno = EPERM; return -1; }
extern "C" int execvp(const char *p, char *const *) { event("execvp", p); errno = EPERM; return -1; }

//------------------------------------------------------------------ surroundings

static std::string dir, canary, secret;
static int port = 0, listener = -1, notify = -1;

static void prepare() {
	if (!dir.empty()) return;
	dir = scratch();
	canary = dir + "/canary.txt";
	secret = "canaryContent7391";
	// reads as an entity's text, a DTD, a property list, YAML and nearly a schema
	{ std::ofstream o(canary.c_str()); o << secret; }
	{ std::ofstream o((dir + "/canary.dtd").c_str()); o << "<!ENTITY fromdtd \"" << secret << "\">"; }
	{ std::ofstream o((dir + "/canary.json").c_str()); o << "{\"title\": \"" << secret << "\", \"enum\": [\"" << secret << "\"], \"properties\": {\"z\": {\"default\": \"" << secret << "\"}}}"; }
	{ std::ofstream o((dir + "/canary.xml").c_str()); o << "<string>" << secret << "</string>"; }
	notify = inotify_init1(IN_NONBLOCK);
	if (notify < 0) harness_error("inotify");
	const char *names[] = { "canary.txt", "canary.dtd", "canary.json", "canary.xml" };
	for (int i = 0; i < 4; ++i) if (inotify_add_watch(notify, (dir + "/" + names[i]).c_str(), IN_OPEN | IN_ACCESS | IN_MODIFY | IN_DELETE_SELF | IN_MOVE_SELF | IN_ATTRIB) < 0) harness_error("inotify watch");
	listener = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a;
	if (listener < 0 || bind(listener, (struct sockaddr *)&a, sizeof a) || listen(listener, 16) || getsockname(listener, (struct sockaddr *)&a, &n)) harness_error("listener");
	port = ntohs(a.sin_port);
	// what the C++ and XML libraries load once
	try { DeserializeXMLPLIST("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?><plist><string>x</string></plist>"); } catch (const std::exception &) {}
}

struct State {
	State() {
		for (int i = 0; i < 128; ++i) if (fcntl(i, F_GETFD) >= 0) fds.insert(i);
		const char *l = setlocale(LC_ALL, 0);
		locale = l ? l : "";
		char b[4096];
		cwd = getcwd(b, sizeof b) ? b : "";
		const int sigs[] = { SIGPIPE, SIGALRM, SIGINT, SIGCHLD, SIGTERM };
		for (int s : sigs) { struct sigaction a; sigaction(s, 0, &a); handlers.push_back((void *)a.sa_handler); }
	}
	std::set<int> fds;
	std::string locale, cwd;
	std::vector<void *> handlers;
};

// Does `work` with everything watched; gives its outcome as text.
static std::string watched(const std::string &what, const std::function<std::string()> &work, const std::string &allowed = "") {
	describe(what);
	std::vector<std::string> seen;
	events = &seen;
	char b[4096];
	while (read(notify, b, sizeof b) > 0) {}
	for (int s; (s = accept4(listener, 0, 0, SOCK_NONBLOCK)) >= 0; ) close(s);
	State before;
	std::string out;
	bool raised = false;
	watching = true;
	try { out = work(); }
	catch (const std::exception &e) { raised = true; out = e.what(); }
	watching = false;
	State after;
	unsigned given = 0;
	for (size_t i = 0; i < seen.size(); ++i) {
		size_t sp = seen[i].find(' ');
		if (!allowed.empty() && seen[i].substr(sp + 1) == allowed) { ++given; continue; }
		throw Fail("touched:" + seen[i].substr(0, sp), cat(seen[i], " while reading ", printable(what, 3000)));
	}
	if (!allowed.empty()) VH_CHECK(given == 1 || raised, "opened-again", given, " times ", printable(what, 2000));
	VH_CHECK(read(notify, b, sizeof b) <= 0, "canary-touched", printable(what, 3000));
	int s = accept4(listener, 0, 0, SOCK_NONBLOCK);
	if (s >= 0) { close(s); throw Fail("connected", printable(what, 3000)); }
	VH_CHECK(out.find(secret) == std::string::npos, "content-leaked", printable(out, 500), " from ", printable(what, 3000));
	// the sanitizer's own memory watch has a descriptor for a moment now and then
	for (int fd : after.fds) if (!before.fds.count(fd)) {
		int k = 0;
		for (; k < 50 && fcntl(fd, F_GETFD) >= 0; ++k) usleep(5000);
		VH_CHECK(k < 50, "descriptor-left", fd, " ", printable(what, 2000));
	}
	VH_CHECK(before.locale == after.locale, "locale-changed", before.locale, " then ", after.locale);
	VH_CHECK(before.cwd == after.cwd, "directory-changed", after.cwd);
	VH_CHECK(before.handlers == after.handlers, "signal-handling-changed", printable(what, 1000));
	nontrivial(hash(what));
	count(raised ? "refused" : "read");
	return raised ? "" : out;
}

static std::string target(Rng &r) {
	static const char *const ext[] = { "txt", "txt", "dtd", "json", "xml" };
	std::string e = r.pick(ext), abs = dir + "/canary." + e;
	switch (r.below(12)) {
	case 0: case 1: return "file://" + abs;
	case 2: return abs;
	case 3: return "canary." + e;
	case 4: return "./canary." + e;
	case 5: return "file:" + abs;
	case 6: return "file://localhost" + abs;
	case 7: case 8: return cat("http://127.0.0.1:", port, "/canary.", e);
	case 9: return cat("ftp://127.0.0.1:", port, "/canary.", e);
	case 10: return cat("https://127.0.0.1:", port, "/canary.", e);
	default: { std::string p; for (size_t i = 0; i < abs.size(); ++i) { char x[8]; if (abs[i] == '/') p += '/'; else { snprintf(x, sizeof x, "%%%02x", (unsigned char)abs[i]); p += x; } } return "file://" + p; }
	}
}
static std::string fragment(Rng &r) { static const char *const f[] = { "", "", "#", "#/properties/z", "#/title", "?q=1" }; return r.pick(f); }

//---------------------------------------------------------------- property lists

// `harmless`: only constructs every reader takes; the text it stands for is in `want`.
static std::string plist(Rng &r, bool harmless, std::string &want) {
	std::string s, q = r.coin() ? "\"" : "'";
	if (r.coin()) { static const char *const enc[] = { "UTF-8", "utf-8", "ISO-8859-1", "US-ASCII" }; s += std::string("<?xml version=\"1.0\" encoding=\"") + r.pick(enc) + "\"?>\n"; }
	if (!harmless && r.chance(1, 5)) s += "<?xml-stylesheet type=\"text/xsl\" href=" + q + target(r) + q + "?>\n";
	if (!harmless && r.chance(1, 8)) s += "<?php include '" + target(r) + "'; ?>\n";
	std::vector<std::string> use;
	std::string inner;
	int kind = r.below(4);
	if (kind) {
		if (r.coin()) { inner += "<!ENTITY own " + q + "text" + q + ">"; use.push_back("own"); }
		if (r.chance(1, 3) && !inner.empty()) { inner += "<!ENTITY twice \"&own;&own;\">"; use.push_back("twice"); }
		if (!harmless) for (int n = r.range(1, 3); n; --n) {
			std::string t = q + target(r) + q;
			switch (r.below(7)) {
			case 0: case 1: inner += "<!ENTITY ext SYSTEM " + t + ">"; use.push_back("ext"); break;
			case 2: inner += "<!ENTITY pub PUBLIC \"-//X//Y//EN\" " + t + ">"; use.push_back("pub"); break;
			case 3: inner += "<!ENTITY % par SYSTEM " + t + "> %par;"; use.push_back("fromdtd"); break;
			case 4: inner += "<!ENTITY in SYSTEM " + t + "><!ENTITY nest \"a&in;b\">"; use.push_back("nest"); break;
			case 5: inner += "<!NOTATION gif SYSTEM \"viewer\"><!ENTITY unp SYSTEM " + t + " NDATA gif>"; use.push_back("unp"); break;
			default: inner += "<!ENTITY % p2 PUBLIC \"x\" " + t + "><!ENTITY % p3 \"&#x25;p2;\"> %p3;"; use.push_back("fromdtd");
			}
		}
		std::string subset = inner.empty() ? "" : " [" + inner + "]";
		if (harmless || r.chance(1, 3)) s += r.coin() ? "<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\"" + subset + ">\n" : "<!DOCTYPE plist" + subset + ">\n";
		else if (r.coin()) { s += "<!DOCTYPE plist SYSTEM " + q + target(r) + q + subset + ">\n"; use.push_back("fromdtd"); }
		else { s += "<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" " + q + target(r) + q + subset + ">\n"; use.push_back("fromdtd"); }
	}
	std::string attr = " version=\"1.0\"";
	if (!harmless && r.chance(1, 5)) attr += " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"x " + target(r) + "\"";
	if (!harmless && r.chance(1, 5)) attr += " xml:base=\"" + target(r) + "\"";
	s += "<plist" + attr + "><array>";
	want = "[";
	for (int n = r.range(1, 4); n; --n) {
		std::string t = "a", w = "a";
		for (int k = r.range(0, 2); k; --k) {
			if (use.empty()) { t += "&amp;"; w += "&"; }
			else { const std::string &e = r.pick(use); t += "&" + e + ";b"; w += (e == "own" ? "text" : "texttext") + std::string("b"); }
		}
		if (!harmless) switch (r.below(9)) {
		case 0: s += "<xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"" + target(r) + "\" parse=\"text\"/>"; break;
		case 1: s += "<dict><key>" + t + "</key><string>x</string></dict>"; break;
		case 2: s += "<data>" + t + "</data>"; break;
		case 3: s += "<string href=\"" + target(r) + "\" src=\"" + target(r) + "\">" + t + "</string>"; break;
		case 4: s += "<integer>" + t + "</integer>"; break;
		default: s += "<string>" + t + "</string>";
		}
		else { s += "<string>" + t + "</string>"; want += (want.size() > 1 ? ", \"" : "\"") + w + "\""; }
	}
	want += "]";
	return s + "</array></plist>";
}

static std::string text_of(Rng &r, SerializeType t) {
	std::string want, x = target(r);
	switch (t) {
	case SERIALIZE_XMLPLIST: return plist(r, false, want);
	case SERIALIZE_YAML: {
		static const char *const tags[] = { "!include ", "!!python/object/apply:os.system ", "!file ", "!!binary ", "!<tag:yaml.org,2002:str> ", "!env ", "" };
		std::string s;
		if (r.chance(1, 3)) s += "%TAG ! " + x + "\n---\n";
		else if (r.coin()) s += "--- ";
		s += "\n";
		for (int n = r.range(1, 5); n; --n) s += cat("k", n, ": ", r.pick(tags), r.coin() ? "\"" + target(r) + "\"" : r.coin() ? "[" + target(r) + "]" : target(r), "\n");
		if (r.chance(1, 3)) s += "a: &a {file: " + x + "}\nb: *a\n<<: *a\n";
		return s;
	}
	case SERIALIZE_BUNDLEHDR: return cat("path ", x, "\ninclude ", target(r), "\nn 5\n");
	default: {
		static const char *const keys[] = { "$ref", "$schema", "id", "$include", "file", "url", "href", "@import", "path" };
		std::string s = "{";
		for (int n = r.range(1, 5); n; --n) s += (s.size() > 1 ? ", " : "") + jstr(r.pick(keys)) + ": " + (r.coin() ? jstr(target(r)) : "{" + jstr(r.pick(keys)) + ": " + jstr(target(r)) + "}");
		return s + "}";
	}
	}
}
static std::string outcome(const Variant &v) { return show(from_variant(v), 100000); }

static void reading(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	if (r.coin()) t = SERIALIZE_XMLPLIST;
	std::string text = text_of(r, t);
	if (r.chance(1, 5)) text = corrupt(r, text);
	if (t == SERIALIZE_YAML) { size_t n = 0; for (size_t i = 0; i < text.size(); ++i) n += text[i] == '*'; if (n > 4) return; }
	uint64_t seed = r.next();
	sample(text);
	count(format_name(t));
	int how = r.below(9);
	std::string what = cat(how, " ", text);
	switch (how) {
	case 0: count("from-string"); watched(what, [&] { return outcome(Deserialize(text, t)); }); break;
	case 1: count("from-memory"); watched(what, [&] { return outcome(Deserialize(text.data(), text.size(), t)); }); break;
	case 2: count("from-stream"); watched(what, [&] { std::istringstream i(text); return outcome(DeserializeFile(i.rdbuf(), t)); }); break;
	case 3: { count("from-file"); Feed f(text, seed); FILE *p = feed_file(&f); watched(what, [&] { return outcome(DeserializeFile(p, t)); }); fclose(p); break; }
	case 4: {
		count("from-named-file");
		std::string name = dir + "/given";
		{ std::ofstream o(name.c_str()); o << text; }
		watched(what, [&] { return outcome(DeserializeFile(name.c_str(), t)); }, name);
		unlink(name.c_str());
		break;
	}
	case 5: count("guessed"); watched(what, [&] { return outcome(DeserializeGuess(text)); }); break;
	case 6: count("all-documents"); watched(what, [&] { std::string o; int n = 0; for (LoadAllIterator i = DeserializeAll(text, t), e; i != e && ++n < 20; ++i) o += outcome(*i); return o; }); break;
	case 7: count("with-payload"); watched(what, [&] { return outcome(DeserializeWithPayload(text, t)); }); break;
	default: {
		count("by-parser");
		watched(what, [&] {
			Feed f(text, seed);
			shared_ptr<ParserInput> in(new FeedInput(&f));
			Parser p = CreateParser(in, t);
			return outcome(ParseVariant(p));
		});
	}
	}
}
// What a property list may hold is still read, with nothing else consulted.
static void harmless(Ctx &c) {
	Rng &r = c.rng;
	std::string want, text = plist(r, true, want);
	sample(text);
	std::string got = watched("harmless " + text, [&] { return outcome(Deserialize(text, SERIALIZE_XMLPLIST)); });
	VH_CHECK(got == want, "harmless-refused", printable(text, 2000), " gave ", got, " instead of ", want);
	count("harmless");
}

//----------------------------------------------------------------------- schemas

static Variant with_targets(Rng &r, int d, bool schema) {
	static const char *const keys[] = { "$ref", "id", "$schema", "properties", "items", "allOf", "not", "title", "enum", "default", "definitions", "x" };
	Variant v = Variant::MapType;
	for (int n = r.range(1, 3); n; --n) {
		std::string k = r.pick(keys);
		if (k == "$ref" || k == "id" || k == "$schema") v[k] = target(r) + fragment(r);
		else if (k == "title") v[k] = target(r);
		else if (d > 2) v["x"] = target(r);
		else if (k == "allOf" || k == "enum") { Variant l = Variant::ListType; for (int i = r.range(1, 2); i; --i) l.Append(with_targets(r, d + 1, schema)); v[k] = l; }
		else if (k == "properties" || k == "definitions") { Variant m = Variant::MapType; m[r.coin() ? "z" : "$ref"] = with_targets(r, d + 1, schema); v[k] = m; }
		else v[k] = with_targets(r, d + 1, schema);
	}
	return v;
}
static std::string verdict(const SchemaResult &s) { return cat(s.Error(), " ", s.PrettyPrintMessage()); }

static void schemas(Ctx &c) {
	Rng &r = c.rng;
	Variant s = with_targets(r, 0, true), d = with_targets(r, 0, false);
	if (r.coin()) d = Variant::MapType;
	std::string what = outcome(s) + " for " + outcome(d);
	sample(what);
	int how = r.below(6);
	std::string uri = target(r) + fragment(r);
	switch (how) {
	case 0: count("schema"); watched(what, [&] { return verdict(SchemaValidate(s, d)); }); break;
	case 1: count("schema-loader"); watched(what, [&] { SchemaLoader l; l.AddSchema(uri, s); return verdict(SchemaValidate(uri, d, &l)); }); break;
	case 2: count("schema-address"); watched(what, [&] { SchemaLoader l; return r.coin() ? verdict(SchemaValidate(uri, d, &l)) : verdict(SchemaValidate(uri, d)); }); break;
	case 3: count("schema-in-data"); d["$schema"] = uri; watched(what, [&] { return verdict(SchemaValidate(Variant::NullType, d)); }); break;
	case 4: count("schema-defaults"); watched(what, [&] { AddSchemaDefaults(s, d); return outcome(d); }); break;
	default:
		// a loader that can fetch, and nothing to fetch: only documents mention addresses
		count("fetching-loader");
		watched(what, [&] {
			AdvSchemaLoader l;
			l.AddPath(dir);
			Variant plain = DeserializeJSON("{\"type\": [\"object\", \"array\"], \"properties\": {\"z\": {\"type\": \"object\"}}, \"title\": \"x\"}");
			return verdict(SchemaValidate(plain, d, &l));
		});
	}
}

//----------------------------------------------------------------------- writing

static void writing(Ctx &c) {
	Rng &r = c.rng;
	SerializeType t = FORMATS[r.below(4)];
	Variant v = Variant::MapType;
	for (int n = r.range(1, 4); n; --n) v[cat("k", n)] = r.coin() ? target(r) : "&ext; <!ENTITY x SYSTEM '" + target(r) + "'>";
	if (t != SERIALIZE_BUNDLEHDR && r.coin()) v["sub"] = with_targets(r, 0, false);
	Variant p = gen_params(r, t);
	std::string what = cat("write ", outcome(v));
	if (r.coin()) { count("written"); watched(what, [&] { return Serialize(v, t, p); }); }
	else {
		count("written-to-file");
		std::string name = dir + "/given";
		watched(what, [&] { Serialize(name.c_str(), v, t, p); return std::string(); }, name);
		unlink(name.c_str());
	}
}

int main(int argc, char **argv) {
	return vh::run(argc, argv, [](Ctx &c) {
		prepare();
		switch (c.rng.below(10)) {
		case 0: harmless(c); break;
		case 1: case 2: case 3: schemas(c); break;
		case 4: writing(c); break;
		default: reading(c);
		}
	});
}
