/* C++ objects of several threads at once, on an engine they share, against the
 * same calls made one after another. */
#include "Exceptions.hpp" /* before any C header */
#include "vrt.h"
#include "EngineBase.hpp"
#include "ResultsBase.hpp"
#include "IpAddress.hpp"
#include "RequiredPropertiesConfig.hpp"
#include "fiftyone.h"
#include <string>
#include <vector>
#include <map>
#include <thread>
#include <cstring>
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector; using std::unique_ptr; using std::shared_ptr;
extern "C" const char *vr_harness = "reentcpp";
enum { O_RESULTS, O_LIST, O_EVIDENCE, O_IP, O_REQUIRED, O_ENGINE, O_META, O_THROW, NOPS };
static const char *oname[NOPS] = { "results", "lists of results", "evidence objects", "address objects", "required properties", "engine", "entities", "exceptions" };
static uint64_t done[NOPS];
extern "C" void vr_setup(void) { vr_alloc_install(); }
extern "C" void vr_teardown(void) { for (int i = 0; i < NOPS; i++) vr_count(oname[i], done[i]); }
static uint32_t below(uint64_t *r, uint32_t n) { return (uint32_t)((vr_rand_s(r) >> 20) % n); }
static uint64_t H(uint64_t h, const string &s) { return vr_mix(h, vr_hash(s.data(), s.size(), s.size())); }
#define HI(h, v) vr_mix(h, (uint64_t)(v))
static string word(uint64_t *r) { string s; for (uint32_t n = 1 + below(r, 10); n; n--) s += "abcdefXYZ0-_"[below(r, 12)]; return s; }
/* the data: its values are a function of the property */
struct Ds { fiftyoneDegreesDataSetBase *b; uint32_t n; };
static vector<string> names;
static void release(fiftyoneDegreesCollectionItem *i) { free(i->data.ptr); i->data.ptr = NULL; }
static fiftyoneDegreesCollection coll;
static fiftyoneDegreesString *get_name(void *, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	if (i >= names.size()) return NULL;
	size_t n = names[i].size() + 1; fiftyoneDegreesString *p = (fiftyoneDegreesString *)malloc(offsetof(fiftyoneDegreesString, value) + n);
	p->size = (int16_t)n; memcpy((char *)p + offsetof(fiftyoneDegreesString, value), names[i].c_str(), n);
	item->data.ptr = (unsigned char *)p; item->handle = NULL; item->collection = &coll;
	return p;
}
static uint32_t no_evidence(void *, fiftyoneDegreesPropertyAvailable *, fiftyoneDegreesEvidenceProperties *) { return 0; }
static void ds_free(void *v) { Ds *d = (Ds *)v; fiftyoneDegreesPropertiesFree(d->b->available); free(d->b); delete d; }
static Ds *make_ds(void) {
	Ds *d = new Ds(); d->b = (fiftyoneDegreesDataSetBase *)calloc(1, sizeof *d->b); d->b->config = d; d->n = (uint32_t)names.size();
	d->b->available = fiftyoneDegreesPropertiesCreate(NULL, NULL, get_name, no_evidence);
	if (!d->b->available) vr_harness_error("no properties");
	return d;
}
static const char *why[] = { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j" };
class MyResults : public ResultsBase {
public:
	MyResults(fiftyoneDegreesResultsBase *r, shared_ptr<fiftyoneDegreesResourceManager> m, fiftyoneDegreesResourceHandle *h) : ResultsBase(r, m), n(((Ds *)((fiftyoneDegreesDataSetBase *)r->dataSet)->config)->n), handle(h) {}
	virtual ~MyResults() { fiftyoneDegreesResourceHandleDecUse(handle); }
	uint32_t n; fiftyoneDegreesResourceHandle *handle;
protected:
	void getValuesInternal(int i, vector<string> &v) override { uint64_t s = (uint64_t)i * 77 + 5; for (uint32_t k = (uint32_t)i % 3 + (i % 4 != 0); k; k--) v.push_back(i % 2 ? std::to_string(below(&s, 1000)) : word(&s)); }
	bool hasValuesInternal(int i) override { return i % 5 != 4; }
	const char *getNoValueMessageInternal(fiftyoneDegreesResultsNoValueReason r) override { return why[(int)r % 10]; }
	fiftyoneDegreesResultsNoValueReason getNoValueReasonInternal(int i) override { return (fiftyoneDegreesResultsNoValueReason)(i % 7); }
};
class MyConfig : public ConfigBase { public: MyConfig(fiftyoneDegreesConfigBase *c) : ConfigBase(c) {} };
class MyEvidence : public EvidenceBase { protected: bool isRelevant(fiftyoneDegreesEvidencePrefix) override { return true; } };
class MyEngine : public EngineBase {
public:
	MyEngine(ConfigBase *c, RequiredPropertiesConfig *r) : EngineBase(c, r) {}
	void start(Ds *d) { fiftyoneDegreesResourceManagerInit(manager.get(), d, &d->b->handle, ds_free); }
	MyResults *results(void) const {
		fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(manager.get());
		fiftyoneDegreesResultsBase base; fiftyoneDegreesResultsInit(&base, ((Ds *)h->resource)->b);
		return new MyResults(&base, manager, h);
	}
	ResultsBase* processBase(EvidenceBase *) const override { return results(); }
	void refreshData() const override {}
	void refreshData(const char *) const override {}
	void refreshData(void *, long) const override {}
	void refreshData(unsigned char *, long) const override {}
	string getDataFilePath() const override { return "f"; }
	string getDataFileTempPath() const override { return "t"; }
	Date getPublishedTime() const override { return Date(); }
	Date getUpdateAvailableTime() const override { return Date(); }
	string getProduct() const override { return "Prod"; }
	string getType() const override { return "Type"; }
	void headers(fiftyoneDegreesHeaders *h) { initHttpHeaderKeys(h); }
};
static MyEngine *engine;
template <class V> static uint64_t got(uint64_t h, V v) {
	h = HI(h, v.hasValue());
	if (!v.hasValue()) { h = HI(h, v.getNoValueReason()); const char *m = v.getNoValueMessage(); h = m ? H(h, m) : h; }
	try { v.getValue(); } catch (const std::exception &e) { h = H(h, e.what()); }
	return h;
}
static uint64_t one(int op, uint64_t *r) {
	uint64_t h = (uint64_t)op;
	switch (op) {
	case O_RESULTS: {
		unique_ptr<MyResults> x(engine->results());
		for (int k = 0; k < 8; k++) {
			int i = (int)below(r, (uint32_t)names.size()); string n = x->getPropertyName(i); if (below(r, 6) == 0) n += "x", i = -1;
			h = HI(H(h, n), x->containsProperty(n));
			switch (below(r, 5)) {
			case 0: { auto v = x->getValues(n); h = got(h, v); if (v.hasValue()) for (auto &s : *v) h = H(h, s); } break;
			case 1: { auto v = x->getValueAsString(i); h = got(h, v); if (v.hasValue()) h = H(h, *v); } break;
			case 2: { auto v = x->getValueAsInteger(n.c_str()); h = got(h, v); if (v.hasValue()) h = HI(h, *v); } break;
			case 3: { auto v = x->getValueAsDouble(&n); h = got(h, v); if (v.hasValue()) h = H(h, std::to_string(*v)); } break;
			default: { auto v = x->getValueAsBool(n); h = got(h, v); if (v.hasValue()) h = HI(h, *v); } break;
			}
		}
	} break;
	case O_LIST: {
		unique_ptr<MyResults> x(engine->results()); h = HI(h, x->getAvailableProperties());
		for (auto &s : x->getProperties()) h = H(h, s);
		h = H(h, x->getPropertyName((int)below(r, 40) - 2));
	} break;
	case O_EVIDENCE: {
		MyEvidence e; static const char *p[] = { "header.", "query.", "cookie.", "server.", "other." };
		for (uint32_t k = 1 + below(r, 8); k; k--) { string key = p[below(r, 5)] + word(r); e[key] = word(r); }
		for (int round = 0; round < 2; round++) {
			MyEvidence f(e); fiftyoneDegreesEvidenceKeyValuePairArray *a = (round ? f : e).get();
			for (uint32_t i = 0; a && i < a->count; i++) h = H(H(HI(h, a->items[i].prefix), a->items[i].field), (const char *)a->items[i].originalValue);
			if (!e.empty()) e.erase(e.begin());
		}
		e.clear(); h = HI(h, e.get()->count);
	} break;
	case O_IP: for (int k = 0; k < 4; k++) {
		char b[80]; if (below(r, 2)) snprintf(b, sizeof b, "%u.%u.%u.%u", below(r, 256), below(r, 256), below(r, 256), below(r, 256)); else snprintf(b, sizeof b, "%x:%x::%x", below(r, 65536), below(r, 65536), below(r, 65536));
		FiftyoneDegrees::IpIntelligence::IpAddress a(b); unsigned char c[16] = { 0 }; h = HI(h, a.getType()); a.getCopyOfIpAddress(c, a.getType() == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : 16); h = vr_mix(h, vr_hash(c, 16, 1));
	} break;
	case O_REQUIRED: {
		vector<string> v; string s; for (uint32_t k = 1 + below(r, 5); k; k--) { v.push_back(word(r)); s += (s.empty() ? "" : ",") + v.back(); }
		RequiredPropertiesConfig a(&v), b(s), c(a);
		fiftyoneDegreesPropertiesRequired *q[] = { a.getConfig(), b.getConfig(), c.getConfig() };
		for (auto x : q) { for (int i = 0; x->array && i < x->count; i++) h = H(h, x->array[i]); if (x->string) h = H(h, x->string); }
		for (auto &t : b.getProperties()) h = H(h, t);
		h = HI(h, c.containsProperty(v[0]));
	} break;
	case O_ENGINE: {
		for (auto &s : *engine->getKeys()) h = H(h, s);
		h = H(HI(h, engine->getAutomaticUpdatesEnabled()), engine->getDataUpdateUrl()); h = HI(h, engine->getIsThreadSafe());
	} break;
	case O_META: {
		ValueMetaDataKey a(word(r), word(r)), b(word(r), word(r)), c(a); h = HI(HI(HI(h, a < b), b < a), a == c);
		ValueMetaData v(a, word(r), word(r)), w(&v); h = H(H(H(h, w.getDescription()), w.getUrl()), w.getKey().getPropertyName());
		std::map<ValueMetaDataKey, int> m; for (int k = 0; k < 5; k++) { ValueMetaDataKey n(word(r), word(r)); m[n] = k; }
		for (auto &x : m) h = HI(H(h, x.first.getValueName()), x.second);
	} break;
	case O_THROW: for (int k = 0; k < 3; k++) {
		fiftyoneDegreesStatusCode s = (fiftyoneDegreesStatusCode)(1 + below(r, 40)); string f = word(r);
		try { throw StatusCodeException(s, f.c_str()); } catch (const StatusCodeException &e) { h = HI(H(h, e.what()), e.getCode()); }
		fiftyoneDegreesException x; x.status = s; x.file = "f.c"; x.func = "g"; x.line = (int)below(r, 99);
		try { throw FatalException(&x); } catch (const FatalException &e) { h = HI(H(h, e.what()), e.getCode()); }
	} break;
	default: break;
	}
	return h;
}
struct Body { uint64_t seed; vector<int> op; vector<uint64_t> got; };
static void work(Body *b) { for (size_t i = 0; i < b->op.size(); i++) { uint64_t r = vr_mix(b->seed, i); b->got[i] = one(b->op[i], &r); } }
static vector<string> hn;
static long get_header(void *, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	if (i >= hn.size()) return -1;
	size_t n = hn[i].size() + 1; fiftyoneDegreesString *p = (fiftyoneDegreesString *)malloc(offsetof(fiftyoneDegreesString, value) + n);
	p->size = (int16_t)n; memcpy((char *)p + offsetof(fiftyoneDegreesString, value), hn[i].c_str(), n);
	item->data.ptr = (unsigned char *)p; item->handle = NULL; item->collection = &coll; return (long)i + 1;
}
static uint64_t cases(uint64_t n) {
	uint64_t rng = vr_rand(), *r = &rng, hash = vr_mix(n, rng);
	memset((void *)&coll, 0, sizeof coll); coll.release = release;
	names.clear(); hn.clear();
	for (uint32_t k = 1 + below(r, 20); k; k--) names.push_back(word(r) + std::to_string(k));
	for (uint32_t k = 1 + below(r, 8); k; k--) hn.push_back(word(r));
	fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
	MyConfig config(&base); RequiredPropertiesConfig required; MyEngine e(&config, &required); engine = &e;
	e.start(make_ds());
	fiftyoneDegreesHeaders *hd = fiftyoneDegreesHeadersCreate(false, NULL, get_header); e.headers(hd); fiftyoneDegreesHeadersFree(hd);
	if (below(r, 2)) e.setLicenseKey(word(r));
	vector<Body> b(2 + below(r, 3)); vector<vector<uint64_t>> want;
	int few = below(r, 2) ? 1 + (int)below(r, 2) : 0, pick[2] = { (int)below(r, NOPS), (int)below(r, NOPS) };
	for (auto &x : b) { x.seed = vr_rand_s(r); for (uint32_t k = 4 + below(r, 30); k; k--) { x.op.push_back(few ? pick[below(r, (uint32_t)few)] : (int)below(r, NOPS)); } x.got.resize(x.op.size()); for (int o : x.op) done[o]++; }
	for (auto &x : b) { work(&x); want.push_back(x.got); }
	size_t live = vr_alloc_live();
	{ vector<std::thread> t; for (auto &x : b) t.emplace_back(work, &x); for (auto &x : t) x.join(); }
	for (size_t t = 0; t < b.size(); t++) for (size_t i = 0; i < b[t].op.size(); i++) {
		vr_note_case("case %llu: thread %zu of %zu, call %zu (%s)", (unsigned long long)n, t, b.size(), i, oname[b[t].op[i]]);
		VR_CHECK(b[t].got[i] == want[t][i], "reent:other-result", "the result of call %zu (%s) differs with %zu threads at once", i, oname[b[t].op[i]], b.size());
	}
	VR_CHECK(vr_alloc_live() == live, "reent:leak", "%zu blocks are held after the calls, %zu before", vr_alloc_live(), live);
	if (vr_want_sample()) vr_sample("case %llu: %zu threads of %zu.. calls, %zu properties", (unsigned long long)n, b.size(), b[0].op.size(), names.size());
	return hash;
}
extern "C" void vr_run_case(uint64_t n) {
	vr_alloc_reset();
	vr_distinct("nontrivial", cases(n));
	if (vr_alloc_live()) { char d[200]; vr_alloc_describe_live(d, sizeof d); vr_fail("reent:leak", "left allocated: %s", d); }
}
