/* Every allocation of a C++ operation failing in turn - by operator new, or by
 * the library's Malloc -, alone or with all that follow. The operation then
 * throws or gives the right answer; either way nothing more is allocated or
 * held than before, and what it worked on is as it was or as it should be.
 * Included by h_engine.cpp when compiled with -DNEW_FAILS. */
#include "EvidenceBase.hpp"
#include "IpAddress.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "ip.h"
#include <new>
#include <functional>
using FiftyoneDegrees::Common::EvidenceBase;
static long newLive, newAt, newFailed; static int newSticky;
static void *new_(size_t n) {
	if (newAt > 0 && --newAt == 0) { newFailed++; if (newSticky) newAt = 1; throw std::bad_alloc(); }
	void *p = malloc(n ? n : 1); if (!p) abort();
	newLive++; return p;
}
void *operator new(size_t n) { return new_(n); }
void *operator new[](size_t n) { return new_(n); }
static void delete_(void *p) { if (p) { newLive--; free(p); } }
void operator delete(void *p) noexcept { delete_(p); }
void operator delete[](void *p) noexcept { delete_(p); }
void operator delete(void *p, size_t) noexcept { delete_(p); }
void operator delete[](void *p, size_t) noexcept { delete_(p); }

enum { DONE, NO_MEMORY, OTHER };
static const char *opName; static long opAt; static int opMalloc, opStatus, opFailed; static char opWhat[300];
/* how the operation ends */
static int attempt(const std::function<void()> &op) {
	int end = DONE; opStatus = 0; opWhat[0] = 0;
	newFailed = 0;
	if (opMalloc) vr_alloc_fail_at((uint64_t)opAt, newSticky); else newAt = opAt;
	try { op(); }
	catch (const std::bad_alloc &) { end = NO_MEMORY; }
	catch (const StatusCodeException &x) { newAt = 0; vr_alloc_no_fail(); opStatus = (int)x.getCode(); end = opStatus == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY ? NO_MEMORY : OTHER; snprintf(opWhat, sizeof opWhat, "%s", x.what()); }
	catch (const std::exception &x) { newAt = 0; end = OTHER; snprintf(opWhat, sizeof opWhat, "%s", x.what()); }
	newAt = 0;
	opFailed = opMalloc ? vr_alloc_failed() : (int)newFailed;
	vr_alloc_no_fail();
	VR_CHECK(end != NO_MEMORY || opFailed, "new:refused", "%s: no memory although none was refused", opName);
	if (opFailed) { vr_count(opMalloc ? "refused_malloc" : "refused_new", 1); vr_count(end == NO_MEMORY ? "ended_no_memory" : end == DONE ? "ended_done" : "ended_other", 1); }
	return end;
}
#define AT "%s with allocation %ld%s %s failing: "
#define ARGS opName, opAt, newSticky ? " and all after it" : "", opMalloc ? "by Malloc" : "by new"
/* the body sets up, attempts and verifies, and leaves nothing */
static void each(const char *name, const std::function<void()> &body) {
	opName = name;
	for (int how = 0; how < 4; how++) {
		opMalloc = how & 1; newSticky = how >> 1;
		for (opAt = 1; opAt < 400; opAt++) {
			long before = newLive; size_t mem = vr_alloc_live(); int held = hitem_live; opFailed = 0;
			body();
			VR_CHECK(newLive == before, "new:leak", AT "%ld blocks of new are left", ARGS, newLive - before);
			if (vr_alloc_live() != mem) { char d[200]; vr_alloc_describe_live(d, sizeof d); vr_fail("new:leak", AT "left allocated: %s", ARGS, d); }
			VR_CHECK(hitem_live == held, "new:held", AT "%d items of the data are still held", ARGS, hitem_live - held);
			newLive = before; hitem_live = held;
			if (!opFailed) break;
		}
		vr_count("operations", 1);
	}
}
class MyBuilder : public EntityMetaDataBuilder { public: static string text(fiftyoneDegreesCollection *c, uint32_t i) { return getString(c, i); } };
class TextMeta : public MyMeta { public: TextMeta(shared_ptr<fiftyoneDegreesResourceManager> m) : MyMeta(m) {} string text(fiftyoneDegreesCollection *c, uint32_t i) { return getString(c, i); } };
static string longer(void) { return vr_chance(1, 3) ? word() : word(30) + string(16 + vr_below(60), 'L'); }
static void strings_(void) {
	fiftyoneDegreesCollection coll; memset((void *)&coll, 0, sizeof coll); coll.get = get_text; coll.release = hitem_release;
	texts_.clear(); for (int n = 0; n < 3; n++) texts_.push_back(longer());
	uint32_t i = vr_below(4); broken = vr_chance(1, 5);
	bool bad = broken || i >= texts_.size();
	int status = broken ? FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL : FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE;
	auto m = std::make_shared<fiftyoneDegreesResourceManager>(); m->active = NULL;
	TextMeta meta(m);
	each("reading a string of the data", [&] {
		int which = (int)vr_below(2); string got;
		int end = attempt([&] { got = which ? meta.text(&coll, i) : MyBuilder::text(&coll, i); });
		VR_CHECK(end == DONE ? !bad && got == texts_[i] : end == NO_MEMORY || (bad && opStatus == status), "new:string", AT "string %u is '%s', ending %d, status %d", ARGS, i, E(got), end, opStatus);
	});
	each("appending a string of the data", [&] {
		fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
		MyConfig config(&base); RequiredPropertiesConfig required; MyEngine e(&config, &required);
		std::stringstream s; if (vr_chance(1, 3)) s.exceptions(std::ios::badbit);
		int end = attempt([&] { e.append(s, &coll, i); });
		bool bit = s.bad(); s.exceptions(std::ios::goodbit);
		if (end == DONE) VR_CHECK(!bad && (bit || s.str() == texts_[i]), "new:append", AT "string %u is appended as '%s' and the stream is %s", ARGS, i, E(s.str()), bit ? "bad" : "good");
		else VR_CHECK(end == NO_MEMORY || (bad && opStatus == status), "new:append", AT "string %u ends %d, status %d", ARGS, i, end, opStatus);
	});
}
static void exceptions_(void) {
	fiftyoneDegreesStatusCode code = (fiftyoneDegreesStatusCode)vr_below(30);
	if (code == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY) code = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; /* that one is how no memory is told */
	string file = longer();
	char *full = (char *)fiftyoneDegreesStatusGetMessage(code, NULL), *named = (char *)fiftyoneDegreesStatusGetMessage(code, file.c_str());
	if (!full || !named) vr_harness_error("no messages");
	each("making an exception of a status", [&] {
		bool withFile = vr_chance(1, 2); string got; int c = -1;
		int end = attempt([&] { StatusCodeException x = withFile ? StatusCodeException(code, file.c_str()) : StatusCodeException(code); StatusCodeException y(x); newAt = 0; vr_alloc_no_fail(); got = y.what(); c = (int)y.getCode(); });
		VR_CHECK(end == NO_MEMORY || (end == DONE && c == (int)code && (got == (withFile ? named : full) || (got.empty() && opMalloc))), "new:exception", AT "status %d has the message '%s', status %d, ending %d", ARGS, (int)code, E(got), c, end);
	});
	each("throwing a failure of the library", [&] {
		EXCEPTION_CREATE; exception->file = file.c_str(); exception->func = "f"; exception->line = 1; exception->status = code;
		int end = attempt([&] { throw FatalException(exception); });
		VR_CHECK(end == NO_MEMORY || (end == OTHER && opStatus == (int)code), "new:fatal", AT "status %d ends %d with status %d", ARGS, (int)code, end, opStatus);
	});
	fiftyoneDegreesFree(full); fiftyoneDegreesFree(named);
}
static vector<string> names_(uint32_t most) { vector<string> v; for (uint32_t n = vr_below(most + 1); n; n--) v.push_back(longer()); return v; }
static void config_(void) {
	vector<string> first = names_(4), second = names_(4);
	each("setting the temporary directories", [&] {
		fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
		{
			MyConfig c(&base); c.setTempDirectories(first);
			int end = attempt([&] { c.setTempDirectories(second); });
			vector<string> now = c.getTempDirectories();
			VR_CHECK(end == DONE || end == NO_MEMORY, "new:directories", AT "ending %d", ARGS, end);
			VR_CHECK(now == second || (end == NO_MEMORY && now == first), "new:directories", AT "the directories are '%s'", ARGS, E(joined(now, ",")));
			/* what the library would use: these directories, or none */
			VR_CHECK(base.tempDirCount == (int)now.size() || (end == NO_MEMORY && base.tempDirCount == 0), "new:directories-count", AT "%d directories of %zu", ARGS, base.tempDirCount, now.size());
			for (int i = 0; i < base.tempDirCount && i < (int)now.size(); i++) VR_CHECK(now[(size_t)i] == base.tempDirs[i], "new:directory", AT "directory %d is '%s' and not '%s'", ARGS, i, base.tempDirs[i], E(now[(size_t)i]));
			c.setTempDirectories(first);
			VR_CHECK(c.getTempDirectories() == first && base.tempDirCount == (int)first.size(), "new:directories-again", AT "they can't be set again", ARGS);
		}
		VR_CHECK(base.tempDirs == NULL && base.tempDirCount == 0, "new:directories-end", AT "directories are left", ARGS);
	});
	vector<string> props = names_(4); for (auto &p : props) std::replace(p.begin(), p.end(), ',', ';');
	string text = joined(props, ",");
	each("required properties", [&] {
		int form = (int)vr_below(4); unique_ptr<RequiredPropertiesConfig> c, source(form == 3 ? new RequiredPropertiesConfig(&props) : new RequiredPropertiesConfig(text));
		vector<string> got; bool there = false, asked = !props.empty();
		int end = attempt([&] {
			c.reset(form == 0 ? new RequiredPropertiesConfig(&props) : form == 1 ? new RequiredPropertiesConfig(text) : new RequiredPropertiesConfig(*source));
			got = c->getProperties(); there = asked && c->containsProperty(props.back().c_str());
		});
		VR_CHECK(end == NO_MEMORY || (end == DONE && got == props && there == asked), "new:required", AT "the properties are '%s' and not '%s', ending %d", ARGS, E(joined(got, ",")), E(text), end);
		VR_CHECK(source->getProperties() == props, "new:required-source", AT "the properties copied from are changed", ARGS);
	});
	each("assigning required properties", [&] {
		vector<string> old(1, "old one that is not short enough to be inside");
		RequiredPropertiesConfig c(&old), source(&props);
		int end = attempt([&] { c = source; });
		vector<string> now = c.getProperties();
		VR_CHECK(end == DONE ? now == props : end == NO_MEMORY && now == old, "new:required-assign", AT "the properties are '%s', ending %d", ARGS, E(joined(now, ",")), end);
	});
}
class MyEvidence : public EvidenceBase { };
static void evidence_(void) {
	std::map<string, string> model;
	static const char *prefixes[] = { "header.", "query.", "cookie.", "server.", "other.", "" };
	for (uint32_t n = vr_below(5); n; n--) model[string(prefixes[vr_below(6)]) + longer()] = longer();
	uint32_t known = 0; for (auto &kv : model) known += fiftyoneDegreesEvidenceMapPrefix(kv.first.c_str()) != NULL;
	each("evidence", [&] {
		MyEvidence e; for (auto &kv : model) e[kv.first] = kv.second;
		if (vr_chance(1, 3)) e.get();
		int which = (int)vr_below(3); fiftyoneDegreesEvidenceKeyValuePairArray *a = NULL; bool checked = false;
		MyEvidence other; other["query.old"] = "old value that is not short enough to be inside";
		int end = attempt([&] {
			if (which == 0) { a = e.get(); checked = true; }
			else if (which == 1) { MyEvidence copy(e); a = copy.get(); newAt = 0; vr_alloc_no_fail(); if (a) VR_CHECK(a->count == known, "new:evidence-copy", AT "%u of %u pairs", ARGS, a->count, known); }
			else { other = e; a = other.get(); checked = true; }
		});
		VR_CHECK(end == DONE || end == NO_MEMORY, "new:evidence", AT "ending %d", ARGS, end);
		if (end == DONE && checked) {
			VR_CHECK(a || opFailed, "new:evidence", AT "no evidence", ARGS);
			if (a) {
				VR_CHECK(a->count == known, "new:evidence", AT "%u of %u pairs", ARGS, a->count, known);
				for (uint32_t i = 0; i < a->count; i++) { string key = string(fiftyoneDegreesEvidencePrefixString(a->items[i].prefix)) + a->items[i].field; VR_CHECK(model.count(key) == 1 && model[key] == (const char *)a->items[i].originalValue, "new:evidence", AT "pair '%s'", ARGS, E(key)); }
			}
		}
		VR_CHECK((std::map<string, string>&)e == model, "new:evidence-kept", AT "the evidence is changed", ARGS);
		if (which == 2 && end == DONE) VR_CHECK((std::map<string, string>&)other == model, "new:evidence-assigned", AT "the evidence is not assigned", ARGS);
		a = e.get(); VR_CHECK(a && a->count == known, "new:evidence-after", AT "the evidence can't be had afterwards", ARGS);
	});
	static const char *addresses[] = { "1.2.3.4", "255.0.10.1:80", "::1", "2001:db8::7:8", "not one", "" };
	static const unsigned char four[] = { 1, 2, 3, 4 };
	const char *address = addresses[vr_below(6)];
	each("an IP address", [&] {
		using FiftyoneDegrees::IpIntelligence::IpAddress;
		int type = -1; unsigned char got[16] = {0};
		int end = attempt([&] { IpAddress a(address); newAt = 0; type = a.getType(); a.getCopyOfIpAddress(got, 16); });
		VR_CHECK(end == NO_MEMORY || end == DONE, "new:address", AT "ending %d", ARGS, end);
		if (end == DONE && address == addresses[0]) VR_CHECK(type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 && !memcmp(got, four, 4), "new:address", AT "%s is of type %d", ARGS, address, type);
	});
}
static void engine_(void) {
	fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
	base.usesUpperPrefixedHeaders = vr_chance(1, 2);
	MyConfig config(&base); RequiredPropertiesConfig required;
	for (int k = 0; k < REASONS; k++) { snprintf(texts[k], sizeof texts[k], "Reason %d, which is told at length", k); messages[k] = vr_chance(1, 4) ? NULL : texts[k]; }
	string product = longer(), type = longer(), url = vr_chance(1, 2) ? longer() : string(), licence = longer();
	each("an engine", [&] {
		long live = dsLive; string got; unique_ptr<MyEngine> e; bool automatic = false;
		int end = attempt([&] {
			e.reset(new MyEngine(&config, &required)); e->product = product; e->type = type;
			if (!url.empty()) e->setDataUpdateUrl(url);
			e->setLicenseKey(licence); got = e->getDataUpdateUrl(); automatic = e->getAutomaticUpdatesEnabled();
		});
		string want = !url.empty() ? url : "https://distributor.51degrees.com/api/v2/download?LicenceKeys=" + licence + "&Type=" + type + "&Product=" + product;
		VR_CHECK(end == NO_MEMORY || (end == DONE && got == want && automatic), "new:update-url", AT "the address is '%s' and not '%s', updates %d, ending %d", ARGS, E(got), E(want), automatic, end);
		e.reset(); VR_CHECK(dsLive == live, "new:data", AT "a data set is left", ARGS);
	});
	hitem_begin(); dsLive = 0;
	Ds *d = make_ds(); overridable = vr_rand();
	fiftyoneDegreesOverridePropertyArray *o = overrides_create(d->b->available, vr_chance(1, 2), NULL, filter);
	headerNames.clear(); for (uint32_t n = 1 + vr_below(4); n; n--) headerNames.push_back(longer());
	fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(false, NULL, get_header);
	if (!h) vr_harness_error("no headers");
	each("the keys of an engine", [&] {
		MyEngine e(&config, &required), whole(&config, &required);
		if (o) whole.overrides(o); whole.headers(h);
		const vector<string> &want = *whole.getKeys(), &got = *e.getKeys();
		int end = attempt([&] { if (o) e.overrides(o); e.headers(h); });
		VR_CHECK(end == DONE || end == NO_MEMORY, "new:keys", AT "ending %d", ARGS, end);
		VR_CHECK(got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin()), "new:keys", AT "the keys are '%s'", ARGS, E(joined(got, " ")));
		VR_CHECK(end != DONE || got == want, "new:keys", AT "%zu of %zu keys", ARGS, got.size(), want.size());
		if (o) e.overrides(o); e.headers(h);
		VR_CHECK(got == want, "new:keys-after", AT "the keys are not completed", ARGS);
	});
	fiftyoneDegreesHeadersFree(h); if (o) overrides_free(o);
	/* results */
	{
		MyEngine e(&config, &required); e.start(d);
		unique_ptr<MyResults> r(e.results());
		for (int n = 0; n < 3; n++) {
			int i = (int)vr_below((uint32_t)d->props.size() + 1); const bool known = r->known(i);
			const Prop none{}; const Prop &p = known ? d->props[(size_t)i] : none;
			bool has = known && p.has; string name = known ? p.name : "?";
			each("results", [&] {
				int which = (int)vr_below(4); CppValue<vector<string>> list; CppValue<string> text; vector<string> names; CppValue<bool> truth; bool there = false;
				int end = attempt([&] { switch (which) {
					case 0: list = r->getValues(i); if (list.hasValue()) list.getValue(); else { try { list.getValue(); } catch (const NoValuesAvailableException &) {} catch (const InvalidPropertyException &) {} catch (const TooManyValuesException &) {} } break;
					case 1: text = r->getValueAsString(i); break;
					case 2: truth = r->getValueAsBool(i); r->getValueAsInteger(i); r->getValueAsDouble(i); break;
					default: names = r->getProperties(); there = r->containsProperty(name); break;
				} });
				VR_CHECK(end == DONE || end == NO_MEMORY, "new:results", AT "ending %d: %s", ARGS, end, opWhat);
				if (end != DONE) return;
				switch (which) {
				case 0: VR_CHECK(list.hasValue() == has && (!has || list.getValue() == p.values), "new:values", AT "the values of '%s' are others", ARGS, E(name)); break;
				case 1: VR_CHECK(text.hasValue() == (has && !p.values.empty()) && (!text.hasValue() || text.getValue() == joined(p.values, "|")), "new:value-text", AT "the value of '%s' is '%s' and not '%s'", ARGS, E(name), text.hasValue() ? E(text.getValue()) : "none", E(joined(p.values, "|"))); break;
				case 2: VR_CHECK(truth.hasValue() == (has && p.values.size() == 1) && (!truth.hasValue() || truth.getValue() == (p.values[0] == "True")), "new:value-bool", AT "the value of '%s' is another", ARGS, E(name)); break;
				default: VR_CHECK(names.size() == d->props.size() && there == known, "new:names", AT "%zu of %zu properties", ARGS, names.size(), d->props.size()); break;
				}
			});
		}
	}
	VR_CHECK(dsLive == 0 && hitem_live == 0, "new:left", "%d data sets and %d names are left", dsLive, hitem_live);
}
static void entities_(void) {
	string t[6]; for (auto &s : t) s = longer();
	vector<string> files = names_(3); vector<uint32_t> ev(vr_below(4), 7);
	each("entities", [&] {
		PropertyMetaData q(t[0], files, t[1], t[2], t[3], true, 3, true, true, true, true, true, t[4], t[5], 2, ev), to("other name that is not short enough to be inside", vector<string>(), "", "", "", true, 3, true, true, true, true, true, "", "", 2, ev);
		ValueMetaData v(ValueMetaDataKey(t[0], t[1]), t[2], t[3]); ComponentMetaData c(4, t[0], 9);
		int which = (int)vr_below(5); bool ok = true;
		int end = attempt([&] { switch (which) {
			case 0: { PropertyMetaData x(q); newAt = 0; ok = x == q && x.getDescription() == t[4] && x.getDataFilesWherePresent() == files; } break;
			case 1: to = q; newAt = 0; ok = to == q && to.getDescription() == t[4] && to.getEvidenceProperties() == ev; break;
			case 2: { ValueMetaData x(v); newAt = 0; ok = x.getKey() == v.getKey() && x.getUrl() == t[3]; } break;
			case 3: { ComponentMetaData x(&c); newAt = 0; ok = x.getName() == t[0]; } break;
			default: { string s = v.getDescription() + q.getCategory() + c.getName(); newAt = 0; ok = s == t[2] + t[2] + t[0]; } break;
		} });
		VR_CHECK(end == NO_MEMORY || (end == DONE && ok), "new:entity", AT "copy %d is another, ending %d", ARGS, which, end);
		VR_CHECK(q.getName() == t[0] && q.getDefaultValue() == t[5] && v.getName() == t[1] && c.getName() == t[0], "new:entity-source", AT "the source of copy %d is changed", ARGS, which);
	});
}
static void new_fails(void) {
	hitem_begin(); dsLive = dsFreed = metaLive = 0;
	switch (vr_below(6)) {
	case 0: strings_(); vr_count("cases_strings", 1); break;
	case 1: exceptions_(); vr_count("cases_exceptions", 1); break;
	case 2: config_(); vr_count("cases_config", 1); break;
	case 3: evidence_(); vr_count("cases_evidence", 1); break;
	case 4: engine_(); vr_count("cases_engine", 1); break;
	default: entities_(); vr_count("cases_entities", 1); break;
	}
	hash = vr_mix(hash, vr_rand());
}
