/* Results of an engine (default), or its evidence keys and update address
 * (--opt keys=1), against plain models. */
#include "Exceptions.hpp" /* before any C header: which "throw" the macros mean depends on it */
#include "hitem.h"
#include "EngineBase.hpp"
#include "ResultsBase.hpp"
#include "fiftyone.h"
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <climits>
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector; using std::unique_ptr; using std::shared_ptr;
extern "C" const char *vr_harness = "engine";
static int keysMode;
extern "C" void vr_setup(void) { keysMode = (int)vr_opt_int("keys", 0); vr_alloc_install(); }
extern "C" void vr_teardown(void) {}
#define E(s) vr_esc((s).data(), (s).size())
template <class T> using CppValue = FiftyoneDegrees::Common::Value<T>;
typedef fiftyoneDegreesResultsNoValueReason Reason;
#define REASONS (FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN + 1)

static string word(uint32_t max = 12) {
	string s; uint32_t n = 1 + vr_below(max);
	for (uint32_t i = 0; i < n; i++) s += vr_chance(1, 12) ? (char)(128 + vr_below(128)) : "abcXYZabcXYZ019-_./"[vr_below(19)];
	return s;
}
static bool same(const string &a, const string &b) { return same_nocase(a.data(), a.size(), b.data(), b.size()); }
static string joined(const vector<string> &v, const char *by) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? by : "") + v[i]; return s; }

/* ---- a data set: some properties and, for each, its values or why there are none ---- */
struct Prop { string name; vector<string> values; bool has; Reason reason; bool isInt, isDouble; int i; double d; };
static vector<string> sourceNames;
static fiftyoneDegreesString *get_name(void *, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	return i < sourceNames.size() ? hitem_string(item, sourceNames[i].c_str()) : NULL;
}
static uint32_t no_evidence(void *, fiftyoneDegreesPropertyAvailable *, fiftyoneDegreesEvidenceProperties *) { return 0; }
static const struct { const char *text; double d; } doubles[] = {
	{ "", 0 }, { "abc", 0 }, { ".5", 0.5 }, { " 7.25", 7.25 }, { "-0.5x", -0.5 }, { "1e3", 1000 }, { "2.5E-1", 0.25 }, { "1e400", HUGE_VAL }, { "True", 0 }, { "0x10", 16 }, { "+3", 3 }, { "9007199254740993", 9007199254740992.0 }, { "4,5", 4 },
};
static const struct { const char *text; int i; } ints[] = {
	{ "", 0 }, { "x", 0 }, { "12abc", 12 }, { " 42", 42 }, { "-7.9", -7 }, { "+8", 8 }, { "2147483647", INT_MAX }, { "-2147483648", INT_MIN }, { "007", 7 }, { "1e3", 1 }, { "0x10", 0 }, { "True", 0 }, { "- 3", 0 },
};
static Prop make_prop(const string &name) {
	Prop p; p.name = name; p.isInt = p.isDouble = false; p.i = 0; p.d = 0;
	p.reason = (Reason)vr_below(REASONS); p.has = vr_chance(4, 5);
	uint32_t n = vr_chance(1, 8) ? 0 : vr_chance(1, 3) ? 2 + vr_below(4) : 1;
	for (uint32_t k = 0; k < n; k++) {
		static const char *truths[] = { "True", "False", "true", "TRUE", "True ", " True", "T", "1", "" };
		switch (vr_below(6)) {
		case 0: p.values.push_back(truths[vr_chance(1, 2) ? vr_below(2) : vr_below(9)]); break;
		case 1: { int at = (int)vr_below(sizeof ints / sizeof *ints); p.values.push_back(ints[at].text); p.isInt = true; p.i = ints[at].i; } break;
		case 2: { int v = vr_chance(1, 2) ? (int)vr_below(2000) - 1000 : (int)vr_rand(); p.values.push_back(std::to_string(v)); p.isInt = p.isDouble = true; p.i = v; p.d = v; } break;
		case 3: { int at = (int)vr_below(sizeof doubles / sizeof *doubles); p.values.push_back(doubles[at].text); p.isDouble = true; p.d = doubles[at].d; } break;
		case 4: { char b[64]; double v = ((double)vr_rand() / 1e12 - 5e6) * (vr_chance(1, 4) ? 1e-20 : 1); snprintf(b, sizeof b, "%.17g", v); p.values.push_back(b); p.isDouble = true; p.d = v; } break;
		default: p.values.push_back(vr_chance(1, 6) ? string() : vr_chance(1, 20) ? string(3000, 'v') : vr_chance(1, 6) ? word() + "|" + word() : word(30)); break;
		}
	}
	return p;
}
struct Ds {
	fiftyoneDegreesDataSetBase *b;
	vector<Prop> props; /* by required index */
	
};
static int dsLive, dsFreed;
static void ds_free(void *v) {
	Ds *d = (Ds *)v;
	fiftyoneDegreesPropertiesFree(d->b->available);
	for (auto &p : d->props) p.name = "freed";
	dsLive--; dsFreed++;
	free(d->b); delete d;
}
static Ds *make_ds(void) {
	Ds *d = new Ds(); d->b = (fiftyoneDegreesDataSetBase *)calloc(1, sizeof *d->b); d->b->config = d;
	sourceNames.clear();
	uint32_t n = 1 + vr_below(vr_chance(1, 4) ? 30 : 6);
	for (uint32_t i = 0; i < n; i++) {
		string s = word();
		bool there = false;
		for (auto &o : sourceNames) there |= same(o, s);
		if (!there) sourceNames.push_back(s);
	}
	d->b->available = fiftyoneDegreesPropertiesCreate(NULL, NULL, get_name, no_evidence);
	if (!d->b->available || d->b->available->count != sourceNames.size()) vr_harness_error("no properties");
	for (uint32_t i = 0; i < d->b->available->count; i++) d->props.push_back(make_prop(&fiftyoneDegreesPropertiesGetNameFromRequiredIndex(d->b->available, (int)i)->value));
	dsLive++;
	return d;
}
static const char *messages[REASONS];
struct Seen { int values, has, reason, index; };
class MyResults : public ResultsBase {
public:
	MyResults(fiftyoneDegreesResultsBase *r, shared_ptr<fiftyoneDegreesResourceManager> m, fiftyoneDegreesResourceHandle *h) : ResultsBase(r, m), ds((Ds *)((fiftyoneDegreesDataSetBase *)r->dataSet)->config), handle(h) { memset(&seen, 0, sizeof seen); }
	virtual ~MyResults() { fiftyoneDegreesResourceHandleDecUse(handle); }
	Ds *ds; fiftyoneDegreesResourceHandle *handle; Seen seen;
	bool known(int i) const { return i >= 0 && i < (int)ds->props.size(); }
protected:
	void getValuesInternal(int i, vector<string> &values) override { seen.values++; seen.index = i; if (known(i)) values = ds->props[(size_t)i].values; }
	bool hasValuesInternal(int i) override { seen.has++; seen.index = i; return known(i) && ds->props[(size_t)i].has; }
	const char *getNoValueMessageInternal(Reason r) override { return messages[r]; }
	Reason getNoValueReasonInternal(int i) override { seen.reason++; seen.index = i; return known(i) ? ds->props[(size_t)i].reason : FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY; }
};
class MyConfig : public ConfigBase { public: MyConfig(fiftyoneDegreesConfigBase *c) : ConfigBase(c) {} };
static int metaLive;
class MyMeta : public MetaData {
public:
	MyMeta(shared_ptr<fiftyoneDegreesResourceManager> m) : MetaData(m), m(m) { metaLive++; }
	virtual ~MyMeta() { VR_CHECK(m->active != nullptr || !hadData, "engine:meta-late", "the metadata is freed after the data it is about"); metaLive--; }
	shared_ptr<fiftyoneDegreesResourceManager> m; bool hadData = false;
	Collection<byte, ComponentMetaData>* getComponents() const override { return NULL; }
	Collection<string, PropertyMetaData>* getProperties() const override { return NULL; }
	Collection<uint32_t, ProfileMetaData>* getProfiles() const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValues() const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProperty(PropertyMetaData *) const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProfile(ProfileMetaData *) const override { return NULL; }
	ComponentMetaData* getComponentForProfile(ProfileMetaData *) const override { return NULL; }
	ComponentMetaData* getComponentForProperty(PropertyMetaData *) const override { return NULL; }
	ProfileMetaData* getDefaultProfileForComponent(ComponentMetaData *) const override { return NULL; }
	ValueMetaData* getDefaultValueForProperty(PropertyMetaData *) const override { return NULL; }
	Collection<string, PropertyMetaData>* getPropertiesForComponent(ComponentMetaData *) const override { return NULL; }
	PropertyMetaData* getPropertyForValue(ValueMetaData *) const override { return NULL; }
	Collection<string, PropertyMetaData>* getEvidencePropertiesForProperty(PropertyMetaData *) const override { return NULL; }
};
class MyEngine : public EngineBase {
public:
	MyEngine(ConfigBase *c, RequiredPropertiesConfig *r) : EngineBase(c, r) {}
	string product, type; bool started = false;
	void start(Ds *d) { fiftyoneDegreesResourceManagerInit(manager.get(), d, &d->b->handle, ds_free); started = true; }
	bool replace(Ds *d) const { return fiftyoneDegreesResourceReplace(manager.get(), d, &d->b->handle); }
	std::weak_ptr<fiftyoneDegreesResourceManager> watch(void) const { return manager; }
	MyResults *results(void) const {
		fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(manager.get());
		fiftyoneDegreesResultsBase base; fiftyoneDegreesResultsInit(&base, ((Ds *)h->resource)->b);
		return new MyResults(&base, manager, h);
	}
	ResultsBase* processBase(EvidenceBase *) const override { return results(); }
	void refreshData() const override {}
	void refreshData(const char *) const override {}
	void refreshData(void *, long) const override {}
	void refreshData(unsigned char *, long) const override {}
	string getDataFilePath() const override { return "f"; }
	string getDataFileTempPath() const override { return "t"; }
	Date getPublishedTime() const override { return Date(); }
	Date getUpdateAvailableTime() const override { return Date(); }
	string getProduct() const override { return product; }
	string getType() const override { return type; }
	MyMeta *meta(void) { MyMeta *m = new MyMeta(manager); m->hadData = started; metaData = m; return m; }
	void headers(fiftyoneDegreesHeaders *h) { initHttpHeaderKeys(h); }
	void overrides(fiftyoneDegreesOverridePropertyArray *o) { initOverrideKeys(o); }
	void append(std::stringstream &s, fiftyoneDegreesCollection *c, uint32_t i) const { appendString(s, c, i); }
};

/* ---- values ---- */
template <class T> static bool equal(const T &a, const T &b) { return a == b; }
template <> bool equal(const double &a, const double &b) { return a == b || (std::isnan(a) && std::isnan(b)); }
template <class T> static void value(CppValue<T> v, bool has, const T *want, Reason reason, const char *message, const char *what, const string &name) {
	CppValue<T> copy(v), other; other = copy;
	CppValue<T> *all[] = { &v, &copy, &other };
	for (auto x : all) {
		VR_CHECK(x->hasValue() == has, "results:has", "%s of '%s' has %s value", what, E(name), x->hasValue() ? "a" : "no");
		if (x->hasValue() != has) return;
		string text; int kind = 0; /* how getting it ends */
		T got = T();
		try { got = vr_chance(1, 2) ? x->getValue() : **x; }
		catch (const InvalidPropertyException &e) { kind = 1; text = e.what(); }
		catch (const TooManyValuesException &e) { kind = 2; text = e.what(); }
		catch (const NoValuesAvailableException &e) { kind = 3; text = e.what(); }
		if (has) {
			VR_CHECK(kind == 0, "results:thrown", "%s of '%s' throws '%s'", what, E(name), text.c_str());
			if (want) VR_CHECK(kind || equal(got, *want), "results:value", "%s of '%s' is another than the data's", what, E(name));
			vr_count("values", 1);
		} else {
			VR_CHECK(x->getNoValueReason() == reason, "results:reason", "%s of '%s' has no value for reason %d and not %d", what, E(name), x->getNoValueReason(), reason);
			int k = reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY ? 1 : reason == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES ? 2 : 3;
			VR_CHECK(kind == k, "results:exception", "%s of '%s' without a value for reason %d throws exception %d and not %d", what, E(name), reason, kind, k);
			if (k != 2) {
				VR_CHECK((x->getNoValueMessage() == NULL) == (message == NULL) && (!message || !strcmp(message, x->getNoValueMessage())), "results:message", "%s of '%s' without a value for reason %d has the message '%s' and not '%s'", what, E(name), reason, x->getNoValueMessage() ? x->getNoValueMessage() : "none", message ? message : "none");
				VR_CHECK(message ? text == message : !text.empty(), "results:exception-message", "%s of '%s' without a value for reason %d throws the text '%s' and not '%s'", what, E(name), reason, text.c_str(), message ? message : "any");
			}
			vr_count(k == 1 ? "invalid" : k == 2 ? "too_many" : "none", 1);
		}
	}
}
/* the same getter by index, and by name given in each way */
#define GET(R, INDEX, NAME, HOW, FN) ((HOW) == 0 ? (R).FN(INDEX) : (HOW) == 1 ? (R).FN((NAME).c_str()) : (HOW) == 2 ? (R).FN(NAME) : (R).FN(&(NAME)))
static void read(MyResults &r) {
	vector<Prop> &props = r.ds->props;
	int i = vr_chance(1, 6) ? (vr_chance(1, 2) ? -1 : (int)props.size() + (int)vr_below(3)) : (int)vr_below((uint32_t)props.size());
	string name;
	int how = (int)vr_below(4);
	if (r.known(i)) { name = props[(size_t)i].name; if (vr_chance(1, 2)) flip_case(&name[0], name.size(), 0); }
	else {
		do name = vr_chance(1, 3) ? props[0].name + "x" : vr_chance(1, 3) ? string() : word(); while (std::any_of(props.begin(), props.end(), [&](const Prop &p) { return same(p.name, name); }));
		if (how) i = -1;
		vr_count("unknown_properties", 1);
	}
	VR_CHECK(r.containsProperty(name) == r.known(i), "results:contains", "property '%s' is %sthere", E(name), r.known(i) ? "not " : "");
	Prop none; none.has = false; none.reason = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY; none.isInt = none.isDouble = false;
	const Prop &p = r.known(i) ? props[(size_t)i] : none;
	Reason reason = !p.has ? p.reason : p.values.size() > 1 ? FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES : FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN;
	const char *message = !p.has ? messages[p.reason] : NULL;
	bool one = p.has && p.values.size() == 1;
	memset(&r.seen, 0, sizeof r.seen); r.seen.index = 12345;
	switch (vr_below(5)) {
	case 0: value(GET(r, i, name, how, getValues), p.has, &p.values, reason, message, "the list", name); break;
	case 1: { string want = joined(p.values, "|"); value(GET(r, i, name, how, getValueAsString), p.has && !p.values.empty(), &want, reason, message, "the text", name); } break;
	case 2: { bool want = one && p.values[0] == "True"; value(GET(r, i, name, how, getValueAsBool), one, &want, reason, message, "the bool", name); if (one) vr_count(want ? "trues" : "falses", 1); } break;
	case 3: { if (one && !p.isInt) break; /* other text only has a value where it is one */
		value(GET(r, i, name, how, getValueAsInteger), one, &p.i, reason, message, "the integer", name); if (one) vr_count("integers", 1); } break;
	default: { if (one && !p.isDouble) break;
		value(GET(r, i, name, how, getValueAsDouble), one, &p.d, reason, message, "the double", name); if (one) vr_count("doubles", 1); } break;
	}
	VR_CHECK(r.seen.index == 12345 || r.seen.index == i, "results:index", "property '%s' is asked of index %d and not %d", E(name), r.seen.index, i);
	vr_count("reads", 1);
}
static void listing(MyResults &r) {
	vector<string> names;
	for (auto &p : r.ds->props) names.push_back(p.name);
	VR_CHECK(r.getAvailableProperties() == (int)names.size(), "results:count", "%d properties of %zu", r.getAvailableProperties(), names.size());
	VR_CHECK(r.getProperties() == names, "results:names", "the properties are '%s' and not '%s'", E(joined(r.getProperties(), ",")), E(joined(names, ",")));
	for (int i = -2; i < (int)names.size() + 2; i++) VR_CHECK(r.getPropertyName(i) == (r.known(i) ? names[(size_t)i] : ""), "results:name", "property %d is '%s'", i, E(r.getPropertyName(i)));
	VR_CHECK(r.getPropertyName(INT_MAX) == "" && r.getPropertyName(INT_MIN) == "", "results:name", "a property far off has a name");
	vr_count("listings", 1);
}
static uint64_t hash;
static char texts[REASONS][40];
static void results(void) {
	for (int k = 0; k < REASONS; k++) { snprintf(texts[k], sizeof texts[k], "Reason %d is %u", k, vr_below(1000)); messages[k] = vr_chance(1, 4) ? NULL : texts[k]; }
	fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
	MyConfig config(&base); RequiredPropertiesConfig required;
	unique_ptr<MyEngine> engine(new MyEngine(&config, &required));
	dsLive = dsFreed = 0; hitem_begin();
	engine->start(make_ds()); int made = 1;
	std::weak_ptr<fiftyoneDegreesResourceManager> manager = engine->watch();
	vector<unique_ptr<MyResults>> held;
	for (uint32_t k = 6 + vr_below(20); k; k--) {
		switch (vr_below(8)) {
		case 0: if (engine) { Ds *d = make_ds(); made++; VR_CHECK(engine->replace(d), "results:replace", "the data is not replaced"); } break;
		case 1: if (engine && vr_chance(1, 6)) { engine.reset(); vr_count("engines_gone_first", 1); } break;
		case 2: case 3: if (engine && held.size() < 5) held.push_back(unique_ptr<MyResults>(engine->results())); break;
		case 4: if (!held.empty()) held.erase(held.begin() + (long)vr_below((uint32_t)held.size())); break;
		case 5: for (auto &r : held) listing(*r); break;
		default: for (auto &r : held) for (int n = 0; n < 4; n++) { read(*r); hash = vr_hash(r->ds->props[0].name.data(), r->ds->props[0].name.size(), vr_mix(hash, r->ds->props.size())); } break;
		}
		/* the current data and those in use are there, each once */
		vector<Ds *> used; for (auto &r : held) if (std::find(used.begin(), used.end(), r->ds) == used.end()) used.push_back(r->ds);
		int want = (int)used.size();
		if (engine) {
			unique_ptr<MyResults> now(engine->results());
			if (std::find(used.begin(), used.end(), now->ds) == used.end()) want++;
		}
		VR_CHECK(manager.expired() == (!engine && held.empty()), "results:manager", "the manager is %s", manager.expired() ? "gone" : "left");
		VR_CHECK(dsLive == want, "results:lifetime", "%d data sets are there where %d are in use", dsLive, want);
	}
	if (vr_chance(1, 2)) engine.reset();
	held.clear(); engine.reset();
	VR_CHECK(dsLive == 0 && dsFreed == made && hitem_live == 0, "results:left", "%d data sets of %d are left, and %d names", dsLive, made, hitem_live);
}
/* ---- evidence keys and update address ---- */
/* the header declares these two without C linkage */
extern "C" fiftyoneDegreesOverridePropertyArray *overrides_create(fiftyoneDegreesPropertiesAvailable *, bool, void *, fiftyoneDegreesOverridesFilterMethod) __asm__("fiftyoneDegreesOverridePropertiesCreate");
extern "C" void overrides_free(fiftyoneDegreesOverridePropertyArray *) __asm__("fiftyoneDegreesOverridePropertiesFree");
static vector<string> headerNames;
static long get_header(void *, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	if (i >= headerNames.size()) return -1;
	hitem_string(item, headerNames[i].c_str());
	return (long)i + 1;
}
static uint64_t overridable;
static bool filter(void *, uint32_t i) { return overridable >> (i & 63) & 1; }
static vector<string> texts_; static bool broken;
static void *get_text(fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	if (broken || i >= texts_.size()) { EXCEPTION_SET(broken ? FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL : FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE); return NULL; }
	void *p = hitem_string(item, texts_[i].c_str()); item->collection = c;
	return p;
}
static void add(vector<string> &model, const string &k) { if (std::find(model.begin(), model.end(), k) == model.end()) model.push_back(k); else vr_count("keys_repeated", 1); }
static void keys(void) {
	fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
	base.usesUpperPrefixedHeaders = false;
	MyConfig config(&base); RequiredPropertiesConfig required;
	hitem_begin(); dsLive = dsFreed = metaLive = 0;
	unique_ptr<MyEngine> e(new MyEngine(&config, &required));
	e->product = word(); e->type = vr_chance(1, 8) ? string() : word();
	vector<string> model; string url, licence;
	bool upper = false, meta = false; vector<unique_ptr<Ds, void (*)(Ds *)>> sets;
	VR_CHECK(e->getMetaData() == NULL && e->getKeys()->empty() && !e->getAutomaticUpdatesEnabled() && e->getDataUpdateUrl().empty(), "engine:new", "a new engine is not empty");
	VR_CHECK(e->getIsThreadSafe() == fiftyoneDegreesThreadingGetIsThreadSafe(), "engine:thread-safe", "the engine is not thread safe");
	for (uint32_t k = 5 + vr_below(15); k; k--) switch (vr_below(9)) {
	case 0: case 1: { /* keys of the headers */
		headerNames.clear();
		static const char *few[] = { "User-Agent", "user-agent", "Sec-CH-UA", "Accept", "a\x1F" "b", "User-Agent\x1F" "Sec-CH-UA", "\x1F", "HTTP_A", "X-Operamini", "q\x1F", "\x1F" "z" };
		for (uint32_t n = vr_below(8); n; n--) headerNames.push_back(vr_chance(1, 2) ? few[vr_below(11)] : word(4));
		fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(upper, NULL, get_header);
		if (!h) vr_harness_error("no headers");
		if (vr_chance(1, 3)) { upper = !upper; config.setUseUpperPrefixHeaders(upper); }
		for (uint32_t i = 0; i < h->count; i++) {
			string n = h->items[i].name;
			if (n.find('\x1F') != string::npos) { vr_count("pseudo_headers", 1); continue; }
			add(model, string("header.") + (upper ? "HTTP_" : "") + n);
			add(model, string("query.") + (upper ? "HTTP_" : "") + n);
			vr_count("plain_headers", 1);
		}
		e->headers(h);
		fiftyoneDegreesHeadersFree(h);
		hash = vr_mix(hash, model.size());
	} break;
	case 2: case 3: { /* keys of the properties */
		if (vr_chance(1, 6)) { e->overrides(NULL); break; }
		Ds *d = make_ds(); overridable = vr_rand(); bool prefix = vr_chance(1, 2);
		fiftyoneDegreesOverridePropertyArray *o = overrides_create(d->b->available, prefix, NULL, filter);
		if (!o) { overridable = 0; ds_free(d); break; }
		uint32_t nameless = vr_chance(1, 8) ? vr_below(o->count + 1) : o->count;
		vector<fiftyoneDegreesPropertyAvailable> copies(o->count + 1);
		bool thrown = false;
		if (nameless < o->count) { copies[0] = *o->items[nameless].available; copies[0].name.data.ptr = NULL; o->items[nameless].available = &copies[0]; }
		vector<string> next = model;
		uint32_t n = 0;
		for (uint32_t i = 0; i < d->props.size(); i++) if (overridable >> (i & 63) & 1) {
			if (n++ == nameless) break;
			add(next, string("cookie.") + (prefix ? "51D_" : "") + d->props[i].name);
			add(next, string("query.") + (prefix ? "51D_" : "") + d->props[i].name);
			vr_count("overridable", 1);
		}
		try { e->overrides(o); } catch (const std::invalid_argument &) { thrown = true; vr_count("nameless", 1); }
		VR_CHECK(thrown == (nameless < o->count), "engine:nameless", "a property without name is %s", thrown ? "refused where there is none" : "accepted");
		model = next;
		overrides_free(o); ds_free(d);
		hash = vr_mix(hash, model.size());
	} break;
	case 4: e->setLicenseKey(licence = vr_chance(1, 4) ? string() : word(40)); break;
	case 5: e->setDataUpdateUrl(url = vr_chance(1, 2) ? string() : "https://" + word(60)); break;
	case 6: { /* strings of the data */
		fiftyoneDegreesCollection coll; memset((void *)&coll, 0, sizeof coll); coll.get = get_text; coll.release = hitem_release;
		texts_.clear(); for (uint32_t n = 1 + vr_below(5); n; n--) texts_.push_back(vr_chance(1, 6) ? string() : word(50));
		std::stringstream s; string want; int live = hitem_live;
		for (int n = 0; n < 5; n++) {
			uint32_t i = vr_below((uint32_t)texts_.size() + 1); broken = vr_chance(1, 6);
			bool bad = broken || i >= texts_.size(), thrown = false;
			try { e->append(s, &coll, i); }
			catch (const FatalException &x) { thrown = true; VR_CHECK(x.getCode() == (broken ? FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL : FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE), "engine:append-status", "status %d", (int)x.getCode()); }
			if (!bad) want += texts_[i];
			VR_CHECK(thrown == bad && s.str() == want && hitem_live == live, "engine:append", "string %u is %s, and the text is '%s' and not '%s'", i, thrown ? "refused" : "given", E(s.str()), E(want));
			vr_count(bad ? "strings_refused" : "strings_appended", 1);
		}
	} break;
	case 7: if (!meta) { meta = true; if (vr_chance(1, 2)) e->start(make_ds()); MyMeta *m = e->meta(); VR_CHECK(e->getMetaData() == m, "engine:meta", "the metadata is another"); } break;
	default: {
		string want = !url.empty() ? url : !licence.empty() ? "https://distributor.51degrees.com/api/v2/download?LicenceKeys=" + licence + "&Type=" + e->type + "&Product=" + e->product : string();
		VR_CHECK(e->getDataUpdateUrl() == want, "engine:address", "the address is '%s' and not '%s'", E(e->getDataUpdateUrl()), E(want));
		VR_CHECK(e->getAutomaticUpdatesEnabled() == !want.empty(), "engine:automatic", "automatic updates are %s for the address '%s'", want.empty() ? "enabled" : "disabled", E(want));
		vr_count(!url.empty() ? "addresses_set" : !licence.empty() ? "addresses_composed" : "addresses_none", 1);
		const vector<string> &got = *e->getKeys();
		VR_CHECK(got == model, "engine:keys", "the keys are '%s' and not '%s'", E(joined(got, " ")), E(joined(model, " ")));
		vr_count("key_lists", 1); if (!model.empty()) vr_count("keys", model.size());
	} break;
	}
	VR_CHECK(*e->getKeys() == model, "engine:keys", "the keys are '%s' and not '%s'", E(joined(*e->getKeys(), " ")), E(joined(model, " ")));
	e.reset();
	VR_CHECK(metaLive == 0 && dsLive == 0 && hitem_live == 0, "engine:left", "%d metadata, %d data sets and %d strings are left", metaLive, dsLive, hitem_live);
}
#ifdef NEW_FAILS
#include "newfail.h"
#endif
extern "C" void vr_run_case(uint64_t n) {
	vr_alloc_reset(); hash = 27;
#ifdef NEW_FAILS
	new_fails();
#else
	if (keysMode) keys(); else results();
#endif
	vr_distinct("nontrivial", hash);
	if (vr_want_sample()) vr_sample("case %llu: history %llx", (unsigned long long)n, (unsigned long long)hash);
	if (vr_alloc_live()) { char d[200]; vr_alloc_describe_live(d, sizeof d); vr_fail("engine:leak", "left allocated: %s", d); }
}
