/* Status messages, exception texts and the C++ exceptions */
#include "vrt.h"
#include "Exceptions.hpp"
#include "fiftyone.h"
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/wait.h>
extern "C" const char *vr_harness = "status";
using namespace FiftyoneDegrees::Common;
using std::string;
extern "C" void vr_setup(void) { vr_alloc_install(); }
extern "C" void vr_teardown(void) {}
/* any int for the C functions; C++ itself allows the enumeration no more than
 * its 6 bits */
typedef int Code;
extern "C" const char *get_message(int status, const char *fileName) __asm__("fiftyoneDegreesStatusGetMessage");
#define ENUM(c) ((fiftyoneDegreesStatusCode)(c))
static bool in_cpp(int c) { return c >= 0 && c < 64; }
#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
static void set_status(fiftyoneDegreesException *e, int c) { memcpy((void *)&e->status, &c, sizeof c); }
static int status_of(const fiftyoneDegreesException *e) { int c; memcpy(&c, (const void *)&e->status, sizeof c); return c; }
#endif

struct Entry { Code code; const char *word; bool file; };
static const Entry known[] = {
#define S(x) FIFTYONE_DEGREES_STATUS_##x
	{ S(SUCCESS), "success", false }, { S(INSUFFICIENT_MEMORY), "memory", false },
	{ S(CORRUPT_DATA), "format", true }, { S(INCORRECT_VERSION), "version", true },
	{ S(FILE_NOT_FOUND), "found", true }, { S(FILE_FAILURE), "accessing", true },
	{ S(NULL_POINTER), "ointer", false }, { S(POINTER_OUT_OF_BOUNDS), "smaller", false },
	{ S(TOO_MANY_OPEN_FILES), "handles", true }, { S(REQ_PROP_NOT_PRESENT), "properties", true },
	{ S(PROFILE_EMPTY), "empty", false }, { S(COLLECTION_FAILURE), "collection", true },
	{ S(FILE_COPY_ERROR), "copying", true }, { S(FILE_EXISTS_ERROR), "exists", false },
	{ S(FILE_WRITE_ERROR), "write", true }, { S(FILE_READ_ERROR), "read", false },
	{ S(FILE_PERMISSION_DENIED), "ermission", true }, { S(FILE_PATH_TOO_LONG), "longer", true },
	{ S(FILE_END_OF_DOCUMENT), "document", false }, { S(FILE_END_OF_DOCUMENTS), "documents", false },
	{ S(FILE_END_OF_FILE), "file", false }, { S(ENCODING_ERROR), "encoding", true },
	{ S(INVALID_COLLECTION_CONFIG), "collection", false }, { S(INVALID_CONFIG), "configur", false },
	{ S(INSUFFICIENT_HANDLES), "handles", false }, { S(COLLECTION_INDEX_OUT_OF_RANGE), "ndex", false },
	{ S(COLLECTION_OFFSET_OUT_OF_RANGE), "ffset", false }, { S(COLLECTION_FILE_SEEK_FAIL), "seek", true },
	{ S(COLLECTION_FILE_READ_FAIL), "read", true }, { S(INCORRECT_IP_ADDRESS_FORMAT), "IP", false },
	{ S(TEMP_FILE_ERROR), "emporary", false },
	/* no text of their own: like codes that are not in the enumeration */
	{ S(FILE_BUSY), NULL, false }, { S(NOT_SET), NULL, false },
};
static const int NK = (int)(sizeof known / sizeof *known);

static Entry pick(bool cpp = false) {
	if (!vr_chance(1, 4)) return known[vr_below(NK)];
	Entry e = { (Code)0, NULL, false };
	int v = vr_chance(1, 3) ? (int)vr_rand() : vr_chance(1, 2) ? NK + (int)vr_below(1000000000) : -1 - (int)vr_below(2000000000);
	if (vr_chance(1, 10)) v = vr_chance(1, 2) ? 2147483647 : -2147483647 - 1;
	if (v >= 0 && v < NK + 20) v += 1000;
	if (cpp) v = NK + (int)vr_below((uint32_t)(64 - NK));
	e.code = v;
	return e;
}
static string gen_name(void) {
	static const char *parts[] = { "data", "/", "\\", "%s", "%n", "%", "%d", ".", "a b", "'", "\"", "\xc3\xa9", "51Degrees", "\n", "null", "%%", "%1$s" };
	string s;
	int n = (int)vr_below(vr_chance(1, 10) ? 400 : 8);
	for (int i = 0; i < n; i++) s += parts[vr_below(17)];
	return s;
}
static string replaced(string s, const string &what, const string &with) {
	size_t at = s.find(what);
	return at == string::npos ? s : s.replace(at, what.size(), with);
}
static size_t times(const string &s, const string &what) {
	size_t n = 0;
	for (size_t at = 0; (at = s.find(what, at)) != string::npos; at += what.size()) n++;
	return n;
}
/* takes the message and gives its memory back as a caller does */
static bool take(const char *m, string &out, const char *of) {
	out.clear();
	if (m == NULL) return false;
	VR_CHECK(vr_alloc_is_live(m), "status:owned", "%s is not memory the caller can free", of);
	if (!vr_alloc_is_live(m)) { out = m; return true; }
	out = m;
	fiftyoneDegreesFree((void *)m);
	return true;
}
static const char MARK[] = "\x01mark\x02";
static string tmpl(Code c) {
	string s;
	take(get_message(c, MARK), s, "a status message");
	return s;
}
static void check_all_once(void) {
	std::map<string, int> seen;
	for (int i = 0; i < NK; i++) {
		string t = tmpl(known[i].code);
		int c = (int)known[i].code;
		VR_CHECK(t.size() > 10 && (t[t.size() - 1] == '.' || t.find("http") != string::npos), "status:complete", "message of status %d is '%s'", c, vr_esc(t.data(), t.size()));
		VR_CHECK(times(t, MARK) == (known[i].file ? 1u : 0u), "status:file", "message of status %d names the file %zu times: '%s'", c, times(t, MARK), vr_esc(t.data(), t.size()));
		VR_CHECK(times(t, "%") == 0, "status:format", "message of status %d has a format left: '%s'", c, vr_esc(t.data(), t.size()));
		if (known[i].word) VR_CHECK(t.find(known[i].word) != string::npos, "status:about", "message of status %d does not say '%s': '%s'", c, known[i].word, vr_esc(t.data(), t.size()));
		VR_CHECK(seen.count(t) == 0, "status:own", "statuses %d and %d have the same message '%s'", seen[t], c, vr_esc(t.data(), t.size()));
		seen[t] = c;
		vr_count("table_messages", 1);
	}
}
static string expected(const Entry &e, const char *file) {
	string t = tmpl(e.code);
	if (e.word == NULL) { /* says which code it is and that it has no text */
		string n = std::to_string((int)e.code);
		VR_CHECK(times(t, n) == 1 && t[t.size() - 1] == '.' && t.find("not have any message") != string::npos, "status:unknown", "message of status %d is '%s'", (int)e.code, vr_esc(t.data(), t.size()));
		return t;
	}
	return replaced(t, MARK, file ? file : "null");
}
static void message(void) {
	Entry e = pick();
	string name = gen_name(), got, again;
	const char *file = vr_chance(1, 8) ? NULL : name.c_str();
	string want = expected(e, file);
	/* an exactly sized copy of the name, gone before the message is read */
	char *f = file ? strdup(file) : NULL;
	const char *m = get_message(e.code, f), *m2 = get_message(e.code, "other");
	free(f);
	VR_CHECK(m != NULL && m2 != NULL && m != m2, "status:message", "no message for status %d", (int)e.code);
	take(m2, again, "a status message");
	take(m, got, "a status message");
	VR_CHECK(got == want, "status:message", "message of status %d and file '%s' is '%s' and not '%s'", (int)e.code, file ? vr_esc(file, name.size()) : "NULL", vr_esc(got.data(), got.size()), vr_esc(want.data(), want.size()));
	vr_count(e.word == NULL ? "messages_unknown" : e.file ? "messages_naming_file" : "messages_plain", 1);
	vr_distinct("nontrivial", vr_mix(vr_hash(name.data(), name.size(), 25), (uint64_t)e.code));
	if (vr_want_sample()) vr_sample("%d: %s", (int)e.code, vr_esc(got.data(), got.size()));
}
#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
static bool oom;
static string where(fiftyoneDegreesException *exception, const Entry &e, string &file, string &func) {
	file = gen_name(); func = gen_name();
	set_status(exception, e.code);
	exception->file = file.c_str(); exception->func = func.c_str();
	exception->line = vr_chance(1, 6) ? 2147483647 : (int)vr_below(100000);
	return std::to_string(exception->line);
}
static bool ordered(const string &text, std::initializer_list<string> parts) {
	size_t at = 0;
	for (const string &p : parts) {
		at = text.find(p, at);
		if (at == string::npos) return false;
		at += p.size();
	}
	return true;
}
static void exception_text(void) {
	Entry e = pick();
	EXCEPTION_CREATE;
	string file, func, want = expected(e, NULL), got, line;
	int known_source = vr_chance(4, 5);
	if (known_source) line = where(exception, e, file, func);
	else set_status(exception, e.code); /* cleared and never given a source */
	const char *m = fiftyoneDegreesExceptionGetMessage(exception);
	VR_CHECK(m != NULL, "exception:message", "no text for status %d", (int)e.code);
	take(m, got, "an exception text");
	if (known_source) {
		VR_CHECK(ordered(got, { want, file, func, line, "\n" }), "exception:names", "text of status %d at '%s' '%s' %s is '%s'", (int)e.code, vr_esc(file.data(), file.size()), vr_esc(func.data(), func.size()), line.c_str(), vr_esc(got.data(), got.size()));
		vr_count("texts_with_source", 1);
	} else {
		VR_CHECK(ordered(got, { want, "\n" }), "exception:names", "text of status %d is '%s'", (int)e.code, vr_esc(got.data(), got.size()));
		vr_count("texts_without_source", 1);
	}
	/* and C++ */
	if (e.code != FIFTYONE_DEGREES_STATUS_NOT_SET && in_cpp(e.code)) {
		bool thrown = false;
		try { EXCEPTION_THROW; }
		catch (const FatalException &x) {
			thrown = true;
			FatalException copy(x);
			VR_CHECK(got == x.what() && got == copy.what(), "fatal:text", "fatal exception of status %d says '%s'", (int)e.code, vr_esc(x.what(), strlen(x.what())));
			VR_CHECK(x.getCode() == e.code && copy.getCode() == e.code, "fatal:code", "fatal exception of status %d has code %d", (int)e.code, (int)x.getCode());
		}
		VR_CHECK(thrown, "fatal:thrown", "status %d is not thrown", (int)e.code);
		vr_count("fatal_thrown", 1);
	} else if (e.code == FIFTYONE_DEGREES_STATUS_NOT_SET) {
		try { EXCEPTION_THROW; } catch (const std::exception &x) { vr_fail("fatal:notset", "thrown without an exception being set"); }
		fiftyoneDegreesException *old = exception;
		exception = NULL;
		EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA);
		try { EXCEPTION_THROW; } catch (const std::exception &x) { vr_fail("fatal:null", "thrown without an exception"); }
		exception = old;
		vr_count("not_thrown", 1);
	}
	/* as set by the macro */
	if (e.code != FIFTYONE_DEGREES_STATUS_NOT_SET && in_cpp(e.code)) {
		EXCEPTION_CLEAR;
		VR_CHECK(EXCEPTION_OKAY && !EXCEPTION_FAILED, "exception:clear", "cleared exception is set");
		int l = __LINE__; EXCEPTION_SET(ENUM(e.code));
		VR_CHECK(EXCEPTION_FAILED && status_of(exception) == e.code && exception->line == l && strcmp(exception->file, __FILE__) == 0 && strcmp(exception->func, __func__) == 0, "exception:set", "exception set at line %d to %d says line %d status %d", l, (int)e.code, exception->line, (int)exception->status);
	}
}
static void code_exception(void) {
	Entry e = pick(true);
	string name = gen_name(), want;
	bool named = vr_chance(2, 3), isnull = named && vr_chance(1, 6);
	want = expected(e, named && !isnull ? name.c_str() : NULL);
	try {
		if (named) throw StatusCodeException(ENUM(e.code), isnull ? NULL : name.c_str());
		throw StatusCodeException(ENUM(e.code));
	} catch (const std::exception &x) {
		const StatusCodeException *s = dynamic_cast<const StatusCodeException *>(&x);
		if (s == NULL) { vr_fail("code:type", "another exception was thrown"); return; }
		StatusCodeException copy(*s);
		VR_CHECK(want == x.what() && want == copy.what(), "code:text", "exception of status %d says '%s' and not '%s'", (int)e.code, vr_esc(x.what(), strlen(x.what())), vr_esc(want.data(), want.size()));
		VR_CHECK(s->getCode() == e.code && copy.getCode() == e.code, "code:code", "exception of status %d has code %d", (int)e.code, (int)s->getCode());
	}
	vr_count("code_exceptions", 1);
}
template <class T> static void says(const T &x, const char *want) {
	const std::runtime_error &r = x;
	VR_CHECK(want ? strcmp(r.what(), want) == 0 : strlen(r.what()) > 10, "named:text", "exception says '%s'", vr_esc(r.what(), strlen(r.what())));
	vr_count("named_exceptions", 1);
}
static void named(void) {
	string m = gen_name();
	says(NotImplementedException(), NULL); says(InvalidPropertyException(), NULL); says(EvidenceException(), NULL);
	says(TooManyValuesException(), NULL); says(NoValuesAvailableException(), NULL); says(NoValuesAvailableException(NULL), NULL);
	says(InvalidPropertyException(m.c_str()), m.c_str()); says(NoValuesAvailableException(m.c_str()), m.c_str());
}
/* the C way: text to standard error and the status as exit code */
static void check_and_exit(void) {
	Entry e = known[vr_below(NK)];
	EXCEPTION_CREATE;
	string file, func, want;
	where(exception, e, file, func);
	const char *m = fiftyoneDegreesExceptionGetMessage(exception);
	if (!take(m, want, "an exception text")) return;
	string path = string(vr_scratch()) + "/stderr";
	fflush(NULL);
	pid_t p = fork();
	if (p < 0) vr_harness_error("fork");
	if (p == 0) {
		FILE *x = freopen(path.c_str(), "w", stderr);
		if (x == NULL) _exit(90);
		/* leave as exit does, without the monitor's own end */
		atexit([] { fflush(stderr); });
		on_exit([](int code, void *) { fflush(stderr); _exit(code); }, NULL);
		fiftyoneDegreesExceptionCheckAndExit(exception);
		fflush(stderr);
		_exit(91);
	}
	int st = 0;
	waitpid(p, &st, 0);
	string got; char buf[8192];
	FILE *fp = fopen(path.c_str(), "r");
	if (fp) { size_t n; while ((n = fread(buf, 1, sizeof buf, fp)) > 0) got.append(buf, n); fclose(fp); }
	unlink(path.c_str());
	if (e.code == FIFTYONE_DEGREES_STATUS_NOT_SET) {
		VR_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 91 && got.empty(), "exit:notset", "with no exception: status %x, printed '%s'", st, vr_esc(got.data(), got.size()));
	} else {
		VR_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == ((int)e.code & 255), "exit:code", "exception of status %d exits with %x", (int)e.code, st);
		VR_CHECK(got == want, "exit:text", "exception of status %d prints '%s' and not '%s'", (int)e.code, vr_esc(got.data(), got.size()), vr_esc(want.data(), want.size()));
	}
	vr_count("exits", 1);
}
/* with memory running out: the whole text or none, and always the code */
static void out_of_memory(void) {
	Entry e = pick(true);
	string name = gen_name(), want = expected(e, name.c_str()), wantnull = expected(e, NULL), text, got, file, func;
	EXCEPTION_CREATE;
	where(exception, e, file, func);
	take(fiftyoneDegreesExceptionGetMessage(exception), text, "an exception text");
	uint64_t at = 1 + vr_below(2); int sticky = vr_chance(1, 2);
	vr_alloc_fail_at(at, sticky);
	const char *m = get_message(e.code, name.c_str());
	int failed = vr_alloc_failed(); vr_alloc_no_fail();
	if (take(m, got, "a status message")) VR_CHECK(got == want, "oom:message", "after %d failed allocations the message of status %d is '%s'", failed, (int)e.code, vr_esc(got.data(), got.size()));
	else VR_CHECK(failed > 0, "oom:message", "no message of status %d", (int)e.code);
	vr_count("failed_allocations", (uint64_t)failed);
	vr_alloc_fail_at(at, sticky);
	m = fiftyoneDegreesExceptionGetMessage(exception);
	failed = vr_alloc_failed(); vr_alloc_no_fail();
	if (take(m, got, "an exception text")) VR_CHECK(got == text, "oom:text", "after %d failed allocations the text of status %d is '%s'", failed, (int)e.code, vr_esc(got.data(), got.size()));
	else VR_CHECK(failed > 0, "oom:text", "no text of status %d", (int)e.code);
	vr_count("failed_allocations", (uint64_t)failed);
	vr_alloc_fail_at(at, sticky);
	try { throw FatalException(exception); }
	catch (const StatusCodeException &x) {
		failed = vr_alloc_failed(); vr_alloc_no_fail();
		VR_CHECK(x.getCode() == e.code, "oom:code", "after %d failed allocations the exception of status %d has code %d", failed, (int)e.code, (int)x.getCode());
		VR_CHECK(text == x.what() || (failed && *x.what() == 0), "oom:what", "after %d failed allocations the exception says '%s'", failed, vr_esc(x.what(), strlen(x.what())));
	}
	vr_alloc_fail_at(at, sticky);
	try { if (vr_chance(1, 2)) { want = wantnull; throw StatusCodeException(ENUM(e.code)); } throw StatusCodeException(ENUM(e.code), name.c_str()); }
	catch (const StatusCodeException &x) {
		failed = vr_alloc_failed(); vr_alloc_no_fail();
		VR_CHECK(x.getCode() == e.code, "oom:code", "after %d failed allocations the exception of status %d has code %d", failed, (int)e.code, (int)x.getCode());
		VR_CHECK(want == x.what() || (failed && *x.what() == 0), "oom:what", "after %d failed allocations the exception says '%s'", failed, vr_esc(x.what(), strlen(x.what())));
	}
}
#else
/* exceptions compiled out: nothing is ever set or thrown, and a text asked for
 * anyway is still the caller's to free */
static void disabled(void) {
	EXCEPTION_CREATE;
	EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA);
	VR_CHECK(EXCEPTION_OKAY && !EXCEPTION_FAILED, "disabled:okay", "an exception is set");
	EXCEPTION_THROW;
	fiftyoneDegreesExceptionCheckAndExit(exception);
	string s;
	take(fiftyoneDegreesExceptionGetMessage(exception), s, "the text of a disabled exception");
	vr_count("disabled", 1);
}
#endif
extern "C" void vr_run_case(uint64_t i) {
	vr_alloc_reset();
	check_all_once();
	for (int k = 0; k < 10; k++) message();
#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
	for (int k = 0; k < 6; k++) { exception_text(); code_exception(); }
	named();
	out_of_memory();
	if (i % 10 == 0) check_and_exit();
#else
	disabled();
#endif
	if (vr_alloc_live()) {
		char d[200]; vr_alloc_describe_live(d, sizeof d);
		vr_fail("status:leak", "left allocated: %s", d);
	}
}
