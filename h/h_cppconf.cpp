/* C++ settings and evidence (default), or metadata entities and strings
 * (--opt meta=1), against plain models. */
#include "Exceptions.hpp" /* before any C header: which "throw" the macros mean depends on it */
#include "hitem.h"
#include "RequiredPropertiesConfig.hpp"
#include "ConfigBase.hpp"
#include "CollectionConfig.hpp"
#include "EvidenceBase.hpp"
#include "MetaData.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "Date.hpp"
#include "fiftyone.h"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
using namespace FiftyoneDegrees::Common;
using std::string; using std::vector; using std::map; using std::unique_ptr;
extern "C" const char *vr_harness = "cppconf";
static int meta;
extern "C" void vr_setup(void) { vr_alloc_install(); meta = (int)vr_opt_int("meta", 0); }
extern "C" void vr_teardown(void) {}
static uint64_t hash;
#define E(s) vr_esc((s).data(), (s).size())

static string word(uint32_t max = 12) {
	string s; uint32_t n = 1 + vr_below(max);
	for (uint32_t i = 0; i < n; i++) s += vr_chance(1, 12) ? (char)(128 + vr_below(128)) : "abcXYZabcXYZ019-_./"[vr_below(19)];
	return s;
}
static string flipped(string s) { flip_case(&s[0], s.size(), 1); return s; }
static bool same(const string &a, const string &b) { return same_nocase(a.data(), a.size(), b.data(), b.size()); }
static string joined(const vector<string> &v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s; }

/* ---- required properties ---- */
struct Req { unique_ptr<RequiredPropertiesConfig> c; vector<string> names; bool array, text; string given; };
static Req make(void) {
	Req r; r.array = r.text = false;
	uint32_t n = vr_below(vr_chance(1, 5) ? 30 : 5);
	for (uint32_t i = 0; i < n; i++) r.names.push_back(word());
	switch (vr_below(7)) {
	case 0: r.names.clear(); r.c.reset(new RequiredPropertiesConfig()); break;
	case 1: r.names.clear(); { const char *none = NULL; r.c.reset(new RequiredPropertiesConfig(none)); } break;
	case 2: { vector<string> given = r.names; r.array = true; r.c.reset(new RequiredPropertiesConfig(&given)); } break;
	case 3: { const vector<string> given = r.names; r.array = true; r.c.reset(new RequiredPropertiesConfig(&given)); } break;
	default: {
		r.text = true;
		for (size_t i = 0; i < r.names.size(); i++) {
			if (i) r.given += ",";
			while (vr_chance(1, 12)) r.given += ",";
			r.given += r.names[i];
		}
		while (vr_chance(1, 12)) r.given += ",";
		string given = r.given;
		switch (vr_below(3)) {
		case 0: r.c.reset(new RequiredPropertiesConfig(given.c_str())); break;
		case 1: r.c.reset(new RequiredPropertiesConfig(given)); break;
		default: r.c.reset(new RequiredPropertiesConfig(&given)); break;
		}
	} break;
	}
	return r;
}
/* what the library itself will use */
static void underlying(Req &r) {
	fiftyoneDegreesPropertiesRequired *p = r.c->getConfig();
	VR_CHECK(p != NULL && p->existing == NULL, "required:underlying", "no configuration");
	if (r.array) {
		VR_CHECK(p->array != NULL && p->string == NULL && p->count == (int)r.names.size(), "required:underlying", "%d names of %zu", p->count, r.names.size());
		for (int i = 0; p->array && i < p->count && i < (int)r.names.size(); i++) VR_CHECK(r.names[i] == p->array[i], "required:underlying", "name %d is '%s' and not '%s'", i, p->array[i], E(r.names[i]));
	} else if (r.text) {
		VR_CHECK(p->array == NULL && p->string != NULL && r.given == p->string, "required:underlying", "the names are '%s' and not '%s'", p->string ? p->string : "NULL", E(r.given));
	} else VR_CHECK(p->array == NULL && p->string == NULL && p->count == 0, "required:underlying", "there are names");
}
static void read_required(Req &r) {
	for (uint32_t k = vr_below(5) + 1; k; k--) switch (vr_below(5)) {
	case 0: { vector<string> got = r.c->getProperties();
		VR_CHECK(got == r.names, "required:names", "names '%s' and not '%s'", E(joined(got)), E(joined(r.names))); vr_count("names_read", 1); } break;
	case 1: VR_CHECK(r.c->getCount() == (int)r.names.size(), "required:count", "%d names of %zu in '%s'", r.c->getCount(), r.names.size(), E(r.given)); break;
	case 2: case 3: {
		string q = r.names.empty() || vr_chance(1, 3) ? word(3) : r.names[vr_below((uint32_t)r.names.size())];
		if (vr_chance(1, 3)) q = flipped(q);
		if (vr_chance(1, 4)) q = q.substr(0, q.size() - 1);
		if (q.empty()) q = "x";
		bool want = false;
		for (auto &n : r.names) want |= same(n, q);
		bool got = vr_chance(1, 2) ? r.c->containsProperty(q) : r.c->containsProperty(q.c_str());
		VR_CHECK(got == want, "required:contains", "'%s' is %sin '%s'", E(q), got ? "" : "not ", E(joined(r.names)));
		vr_count(want ? "contained" : "not_contained", 1);
	} break;
	default: underlying(r); break;
	}
	underlying(r);
}
static void required(void) {
	vector<Req> all;
	for (uint32_t k = 3 + vr_below(8); k; k--) switch (vr_below(5)) {
	case 0: case 1: all.push_back(make()); break;
	case 2: if (!all.empty()) { /* a copy, read after either is gone */
		Req &o = all[vr_below((uint32_t)all.size())], n;
		n.names = o.names; n.given = o.given; n.array = o.array; n.text = o.text;
		if (vr_chance(1, 2)) n.c.reset(new RequiredPropertiesConfig(*o.c));
		else { Req other = make(); n.c = std::move(other.c); *n.c = *o.c; if (vr_chance(1, 4)) { RequiredPropertiesConfig &self = *n.c; *n.c = self; } }
		read_required(o); all.push_back(std::move(n)); vr_count("required_copies", 1);
	} break;
	case 3: if (!all.empty()) { size_t i = vr_below((uint32_t)all.size()); read_required(all[i]); all.erase(all.begin() + (long)i); } break;
	default: for (auto &r : all) read_required(r); break;
	}
	for (auto &r : all) { read_required(r); hash = vr_hash(r.given.data(), r.given.size(), vr_mix(hash, r.names.size())); }
	vr_count("required_histories", 1);
}
/* ---- settings ---- */
class MyConfig : public ConfigBase { public: MyConfig(fiftyoneDegreesConfigBase *c) : ConfigBase(c) {} };
static void settings(void) {
	fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
	{
		MyConfig c(&base);
		bool upper = base.usesUpperPrefixedHeaders, temp = base.useTempFile, reuse = base.reuseTempFile;
		vector<string> dirs;
		for (uint32_t k = 2 + vr_below(8); k; k--) {
			bool b = vr_chance(1, 2);
			switch (vr_below(5)) {
			case 0: c.setUseUpperPrefixHeaders(upper = b); break;
			case 1: c.setUseTempFile(temp = b); break;
			case 2: c.setReuseTempFile(reuse = b); break;
			default: {
				vector<string> given;
				for (uint32_t n = vr_below(vr_chance(1, 8) ? 40 : 4); n; n--) given.push_back(word(vr_chance(1, 2) ? 40 : 5));
				c.setTempDirectories(given);
				dirs = given;
				for (auto &g : given) g.assign(g.size(), '!'); /* the setting is its own */
				vr_count("directories_set", 1);
			} break;
			}
			VR_CHECK(c.getUseUpperPrefixHeaders() == upper && base.usesUpperPrefixedHeaders == upper, "config:upper", "upper prefix is not %d", upper);
			VR_CHECK(c.getUseTempFile() == temp && base.useTempFile == temp, "config:temp", "temp file is not %d", temp);
			VR_CHECK(c.getReuseTempFile() == reuse && base.reuseTempFile == reuse, "config:reuse", "reuse is not %d", reuse);
			VR_CHECK(c.getTempDirectories() == dirs, "config:directories", "directories '%s' and not '%s'", E(joined(c.getTempDirectories())), E(joined(dirs)));
			VR_CHECK(base.tempDirCount == (int)dirs.size(), "config:directories", "%d directories of %zu", base.tempDirCount, dirs.size());
			for (int i = 0; i < base.tempDirCount && i < (int)dirs.size(); i++) VR_CHECK(dirs[i] == base.tempDirs[i], "config:directory", "directory %d is '%s' and not '%s'", i, base.tempDirs[i], E(dirs[i]));
			VR_CHECK(vr_alloc_live() <= 1, "config:leak", "%zu blocks allocated for one list", vr_alloc_live());
		}
		hash = vr_mix(hash, dirs.size());
	}
	VR_CHECK(base.tempDirs == NULL && base.tempDirCount == 0, "config:end", "the directories are still set");
	vr_count("settings_histories", 1);
	fiftyoneDegreesCollectionConfig cc = { 1, 2, 3 };
	CollectionConfig c(&cc);
	uint32_t loaded = 1, capacity = 2; uint16_t conc = 3;
	for (int k = 0; k < 6; k++) {
		switch (vr_below(3)) {
		case 0: c.setLoaded(loaded = (uint32_t)vr_rand()); break;
		case 1: c.setCapacity(capacity = (uint32_t)vr_rand()); break;
		default: c.setConcurrency(conc = (uint16_t)vr_rand()); break;
		}
		CollectionConfig other(c);
		VR_CHECK(c.getConfig() == &cc && other.getConfig() == &cc && cc.loaded == loaded && cc.capacity == capacity && cc.concurrency == conc, "collection:underlying", "loaded %u capacity %u concurrency %u", cc.loaded, cc.capacity, cc.concurrency);
		VR_CHECK(other.getLoaded() == loaded && other.getCapacity() == capacity && other.getConcurrency() == conc, "collection:get", "loaded %u capacity %u concurrency %u", other.getLoaded(), other.getCapacity(), other.getConcurrency());
	}
}
/* ---- evidence ---- */
static const struct { const char *text; int prefix; } prefixes[] = {
	{ "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER },
	{ "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE },
};
class MyEvidence : public EvidenceBase {
public:
	int mask = -1;
protected:
	bool isRelevant(fiftyoneDegreesEvidencePrefix p) override { return ((int)p & mask) != 0; }
};
struct Ev { unique_ptr<MyEvidence> e; map<string, string> m; };
static void read_evidence(Ev &x) {
	fiftyoneDegreesEvidenceKeyValuePairArray *a = x.e->get();
	VR_CHECK(a != NULL, "evidence:get", "no evidence");
	if (!a) return;
	uint32_t n = 0;
	for (auto &kv : x.m) {
		for (auto &p : prefixes) {
			size_t l = strlen(p.text);
			if (kv.first.size() <= l || kv.first.compare(0, l, p.text) || !(p.prefix & x.e->mask)) continue;
			if (n >= a->count) { vr_fail("evidence:missing", "'%s' of %zu entries is not in the %u pairs", E(kv.first), x.m.size(), a->count); return; }
			fiftyoneDegreesEvidenceKeyValuePair *q = &a->items[n++];
			VR_CHECK((int)q->prefix == p.prefix && kv.first.substr(l) == q->field && kv.second == (const char *)q->originalValue, "evidence:pair", "pair %u is %d '%s' '%s' and not '%s' '%s'", n - 1, q->prefix, q->field, (const char *)q->originalValue, E(kv.first), E(kv.second));
			vr_count("pairs", 1);
		}
	}
	VR_CHECK(n == a->count && a->count <= a->capacity, "evidence:extra", "%u pairs of which %u are known", a->count, n);
}
static void evidence(void) {
	vector<Ev> all(1 + vr_below(3));
	for (auto &x : all) { x.e.reset(new MyEvidence()); if (vr_chance(1, 3)) x.e->mask = (int)vr_below(32); }
	for (uint32_t k = 5 + vr_below(30); k; k--) {
		size_t i = vr_below((uint32_t)all.size());
		Ev &x = all[i];
		switch (vr_below(10)) {
		case 0: case 1: case 2: case 3: {
			string key = (vr_chance(1, 8) ? "" : vr_chance(1, 8) ? "HEADER." : prefixes[vr_below(4)].text), v = vr_chance(1, 8) ? "" : word(20);
			if (!vr_chance(1, 10)) key += word(3);
			if (!x.m.empty() && vr_chance(1, 3)) { key = std::next(x.m.begin(), (long)vr_below((uint32_t)x.m.size()))->first; vr_count("values_replaced", 1); if (vr_chance(1, 2)) read_evidence(x); }
			if (vr_chance(1, 2)) (*x.e)[key] = v; else { x.e->insert(std::make_pair(key, v)); if (x.m.count(key)) v = x.m[key]; }
			x.m[key] = v; hash = vr_hash(key.data(), key.size(), hash);
		} break;
		case 4: if (!x.m.empty()) { long at = (long)vr_below((uint32_t)x.m.size()); x.e->erase(std::next(x.e->begin(), at)); x.m.erase(std::next(x.m.begin(), at)); vr_count("erased", 1); } break;
		case 5: if (!x.m.empty()) { long at = (long)vr_below((uint32_t)x.m.size()), to = at + (long)vr_below((uint32_t)(x.m.size() - (size_t)at) + 1);
			x.e->erase(std::next(x.e->begin(), at), std::next(x.e->begin(), to)); x.m.erase(std::next(x.m.begin(), at), std::next(x.m.begin(), to)); vr_count("erased", 1); } break;
		case 6: if (vr_chance(1, 2)) { x.e->clear(); x.m.clear(); vr_count("cleared", 1); } break;
		case 7: { /* a copy of its own */
			Ev n; n.m = x.m;
			if (vr_chance(1, 2)) n.e.reset(new MyEvidence(*x.e));
			else { n.e.reset(new MyEvidence()); (*n.e)["header.old"] = "old"; read_evidence(x); if (vr_chance(1, 2)) n.e->get(); *n.e = *x.e; if (vr_chance(1, 4)) { MyEvidence &self = *n.e; *n.e = self; } }
			vr_count("evidence_copies", 1);
			if (all.size() < 5) all.push_back(std::move(n)); else { read_evidence(n); all[vr_below(5)] = std::move(n); }
		} break;
		default: read_evidence(x); if (vr_chance(1, 3)) read_evidence(x); break;
		}
	}
	for (auto &x : all) { VR_CHECK(x.e->size() == x.m.size(), "evidence:size", "%zu entries of %zu", x.e->size(), x.m.size()); read_evidence(x); }
	vr_count("evidence_histories", 1);
}
/* ---- no memory ---- */
static void out_of_memory(void) {
	vector<string> given; for (uint32_t n = 1 + vr_below(5); n; n--) given.push_back(word());
	string text = joined(given);
	uint64_t at = 1 + vr_below(7); int sticky = vr_chance(1, 2);
	size_t before = vr_alloc_live();
	for (int what = 0; what < 5; what++) {
		RequiredPropertiesConfig source(&given); MyEvidence ev; ev["header.a"] = "b";
		fiftyoneDegreesConfigBase base = { FIFTYONE_DEGREES_CONFIG_DEFAULT };
		MyConfig config(&base);
		if (what == 4 && vr_chance(1, 2)) config.setTempDirectories(given);
		int failed; bool thrown = false;
		vr_alloc_fail_at(at, sticky);
		try {
			if (what == 0) { RequiredPropertiesConfig c(&given); failed = vr_alloc_failed(); vr_alloc_no_fail(); VR_CHECK(!failed && c.getProperties() == given, "oom:required", "after %d failed allocations there are %d names", failed, c.getCount()); }
			else if (what == 1) { RequiredPropertiesConfig c(text); failed = vr_alloc_failed(); vr_alloc_no_fail(); VR_CHECK(!failed && c.getProperties() == given, "oom:required", "after %d failed allocations there are %d names", failed, c.getCount()); }
			else if (what == 2) { RequiredPropertiesConfig c(source); failed = vr_alloc_failed(); vr_alloc_no_fail(); VR_CHECK(!failed && c.getProperties() == given, "oom:required", "after %d failed allocations there are %d names", failed, c.getCount()); }
			else if (what == 3) { auto *a = ev.get(); failed = vr_alloc_failed(); vr_alloc_no_fail(); VR_CHECK(failed ? a == NULL : a != NULL && a->count == 1, "oom:evidence", "after %d failed allocations there is %s", failed, a ? "evidence" : "none"); }
			else { config.setTempDirectories(given); failed = vr_alloc_failed(); vr_alloc_no_fail(); VR_CHECK(!failed && base.tempDirCount == (int)given.size(), "oom:directories", "after %d failed allocations there are %d directories", failed, base.tempDirCount); }
		} catch (const StatusCodeException &x) {
			thrown = true; failed = vr_alloc_failed(); vr_alloc_no_fail();
			VR_CHECK(failed > 0 && x.getCode() == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "oom:code", "after %d failed allocations the status is %d", failed, (int)x.getCode());
			if (what == 4) VR_CHECK(base.tempDirCount == 0, "oom:directories", "%d directories without memory for them", base.tempDirCount);
		}
		vr_count("failed_allocations", (uint64_t)failed); (void)thrown;
		VR_CHECK(source.getProperties() == given, "oom:source", "the source was changed");
		VR_CHECK(ev.get() != NULL, "oom:again", "no evidence later");
	}
	VR_CHECK(vr_alloc_live() == before, "oom:leak", "%zu blocks left", vr_alloc_live() - before);
}
/* ---- metadata ---- */
static byte rbyte(void) { return (byte)vr_rand(); }
static string rtext(void) { return vr_chance(1, 8) ? string() : word(30); }
template <class T, class F> static void entity(const T &x, F verify) {
	verify(x);
	T copy(x), assigned, moved(std::move(copy));
	assigned = x;
	T *pointer = new T(x), from(pointer); /* the pointer form SWIG uses */
	delete pointer;
	verify(moved); verify(assigned); verify(from); verify(x);
	VR_CHECK(x == moved && !(x != from) && x == assigned, "entity:copy", "a copy is not equal");
	vr_count("entities", 1);
}
static void entities(void) {
	for (int k = 0; k < 3; k++) {
		byte id = rbyte(); string name = rtext(); uint32_t def = (uint32_t)vr_rand();
		ComponentMetaData c(id, name, def);
		entity(c, [&](const ComponentMetaData &x) { VR_CHECK(x.getComponentId() == id && x.getComponentIdAsInt() == (int)id && x.getKey() == id && x.getName() == name && x.getDefaultProfileId() == def, "component:attributes", "component %d '%s' %u", (int)id, E(name), def); });
		byte id2 = vr_chance(1, 2) ? id : rbyte();
		ComponentMetaData c2(id2, rtext(), 1);
		VR_CHECK((c == c2) == (id == id2) && (c != c2) == (id != id2), "component:equal", "components %d and %d", id, id2);
		uint32_t pid = vr_chance(1, 3) ? vr_below(4) : (uint32_t)vr_rand(), pid2 = vr_chance(1, 3) ? pid : pid ^ (1u << vr_below(32));
		ProfileMetaData p(pid, id), p2(pid2, id);
		entity(p, [&](const ProfileMetaData &x) { VR_CHECK(x.getProfileId() == pid && x.getKey() == pid && x.getComponentId() == id, "profile:attributes", "profile %u of component %d", pid, (int)id); });
		VR_CHECK((p == p2) == (pid == pid2) && (p != p2) == (pid != pid2), "profile:equal", "profiles %u and %u", pid, pid2);
		string t[6]; for (auto &s : t) s = rtext();
		vector<string> files; for (uint32_t n = vr_below(4); n; n--) files.push_back(rtext());
		vector<uint32_t> ev; for (uint32_t n = vr_below(4); n; n--) ev.push_back((uint32_t)vr_rand());
		uint32_t b = (uint32_t)vr_rand(); byte order = rbyte();
		PropertyMetaData q(t[0], files, t[1], t[2], t[3], b & 1, order, b & 2, b & 4, b & 8, b & 16, b & 32, t[4], t[5], id, ev);
		entity(q, [&](const PropertyMetaData &x) {
			VR_CHECK(x.getName() == t[0] && x.getKey() == t[0] && x.getDataFilesWherePresent() == files && x.getType() == t[1] && x.getCategory() == t[2] && x.getUrl() == t[3] && x.getDescription() == t[4] && x.getDefaultValue() == t[5], "property:texts", "property '%s'", E(t[0]));
			VR_CHECK(x.getAvailable() == !!(b & 1) && x.getDisplayOrder() == (int)order && x.getIsMandatory() == !!(b & 2) && x.getIsList() == !!(b & 4) && x.getIsObsolete() == !!(b & 8) && x.getShow() == !!(b & 16) && x.getShowValues() == !!(b & 32), "property:flags", "property '%s' of flags %x and order %d", E(t[0]), b & 63, order);
			VR_CHECK(x.getComponentId() == id && x.getEvidenceProperties() == ev, "property:links", "property '%s'", E(t[0]));
		});
		string n2 = vr_chance(1, 3) ? t[0] : vr_chance(1, 2) ? flipped(t[0]) : rtext();
		PropertyMetaData q2(n2, files, t[1], t[2], t[3], true, order, true, true, true, true, true, t[4], t[5], id, ev);
		VR_CHECK((q == q2) == (n2 == t[0]) && (q != q2) == (n2 != t[0]), "property:equal", "properties '%s' and '%s'", E(t[0]), E(n2));
		ValueMetaData v(ValueMetaDataKey(t[0], t[1]), t[2], t[3]);
		entity(v, [&](const ValueMetaData &x) { VR_CHECK(x.getName() == t[1] && x.getKey().getPropertyName() == t[0] && x.getKey().getValueName() == t[1] && x.getDescription() == t[2] && x.getUrl() == t[3], "value:attributes", "value '%s' of '%s'", E(t[1]), E(t[0])); });
		hash = vr_hash(t[0].data(), t[0].size(), vr_mix(hash, pid));
		fiftyoneDegreesDate d = { (int16_t)vr_rand(), rbyte(), rbyte() };
		Date date(&d), day; fiftyoneDegreesDate was = d;
		memset((void *)&d, 0x5A, sizeof d);
		day = date;
		VR_CHECK(day.getYear() == was.year && day.getMonth() == was.month && day.getDay() == was.day, "date:parts", "date %d %d %d", date.getYear(), date.getMonth(), date.getDay());
		Date none; VR_CHECK(none.getYear() == 0 && none.getMonth() == 0 && none.getDay() == 0, "date:none", "an unset date is set");
		vr_count("dates", 1);
	}
	ComponentMetaData nc; ProfileMetaData np; PropertyMetaData nq; ValueMetaData nv; ValueMetaDataKey nk;
	VR_CHECK(nc.getComponentId() == 255 && nc.getName() == "invalid" && nc.getDefaultProfileId() == 0 && np.getProfileId() == 0 && np.getComponentId() == 255
		&& nq.getName() == "invalid" && !nq.getAvailable() && !nq.getShow() && nq.getComponentId() == 255 && nq.getEvidenceProperties().empty() && nq.getDataFilesWherePresent().empty()
		&& nv.getName() == "invalid" && nv.getUrl() == "invalid" && nk.getPropertyName() == "invalid" && nk.getValueName() == "invalid" && nv.getKey() == nk, "entity:invalid", "an unset entity is not the invalid one");
	/* the order of value keys: strict, total, by property first */
	static const char *few[] = { "", "a", "b", "ab", "B", "aa", "invalid" };
	vector<ValueMetaDataKey> keys;
	for (uint32_t n = 3 + vr_below(10); n; n--) keys.push_back(ValueMetaDataKey(few[vr_below(7)], few[vr_below(7)]));
	auto name = [](const ValueMetaDataKey &k) { return k.getPropertyName() + "/" + k.getValueName(); };
	for (auto &a : keys) for (auto &b : keys) {
		bool eq = a.getPropertyName() == b.getPropertyName() && a.getValueName() == b.getValueName();
		VR_CHECK((a == b) == eq && (ValueMetaData(a, "x", "y") == ValueMetaData(b, "z", "")) == eq, "key:equal", "'%s' and '%s'", E(name(a)), E(name(b)));
		VR_CHECK((a < b) + (b < a) == (eq ? 0 : 1), "key:total", "'%s' and '%s' are in %d orders", E(name(a)), E(name(b)), (a < b) + (b < a));
		for (auto &c : keys) VR_CHECK(!(a < b && b < c) || a < c, "key:transitive", "'%s' '%s' '%s'", E(name(a)), E(name(b)), E(name(c)));
	}
	std::sort(keys.begin(), keys.end());
	for (size_t i = 0; i < keys.size(); i++) for (size_t k = i + 1; k < keys.size(); k++) if (keys[i].getPropertyName() == keys[k].getPropertyName())
		VR_CHECK(keys[k - 1].getPropertyName() == keys[k].getPropertyName(), "key:property-first", "property '%s' is parted by '%s'", E(keys[k].getPropertyName()), E(name(keys[k - 1])));
	map<ValueMetaDataKey, int> byKey; map<std::pair<string, string>, int> model;
	for (size_t i = 0; i < keys.size(); i++) { byKey[keys[i]] = (int)i; model[std::make_pair(keys[i].getPropertyName(), keys[i].getValueName())] = (int)i; }
	VR_CHECK(byKey.size() == model.size(), "key:map", "%zu keys of %zu", byKey.size(), model.size());
	for (auto &kv : model) VR_CHECK(byKey.count(ValueMetaDataKey(kv.first.first, kv.first.second)) == 1 && byKey[ValueMetaDataKey(kv.first.first, kv.first.second)] == kv.second, "key:map", "'%s/%s'", E(kv.first.first), E(kv.first.second));
	vr_count("key_orders", 1);
}
/* strings of the data read for the metadata */
static vector<string> texts; static bool broken;
static void *get_text(fiftyoneDegreesCollection *c, uint32_t i, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	if (broken || i >= texts.size()) { EXCEPTION_SET(broken ? FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL : FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE); return NULL; }
	void *p = hitem_string(item, texts[i].c_str()); item->collection = c;
	return p;
}
class MyBuilder : public EntityMetaDataBuilder { public: static string text(fiftyoneDegreesCollection *c, uint32_t i) { return getString(c, i); } };
template <class T> using ptr = T *;
class MyMeta : public MetaData {
public:
	MyMeta(shared_ptr<fiftyoneDegreesResourceManager> m) : MetaData(m) {}
	string text(fiftyoneDegreesCollection *c, uint32_t i) { return getString(c, i); }
	Collection<byte, ComponentMetaData>* getComponents() const override { return NULL; }
	Collection<string, PropertyMetaData>* getProperties() const override { return NULL; }
	Collection<uint32_t, ProfileMetaData>* getProfiles() const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValues() const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProperty(PropertyMetaData *) const override { return NULL; }
	Collection<ValueMetaDataKey, ValueMetaData>* getValuesForProfile(ProfileMetaData *) const override { return NULL; }
	ComponentMetaData* getComponentForProfile(ProfileMetaData *) const override { return NULL; }
	ComponentMetaData* getComponentForProperty(PropertyMetaData *) const override { return NULL; }
	ProfileMetaData* getDefaultProfileForComponent(ComponentMetaData *) const override { return NULL; }
	ValueMetaData* getDefaultValueForProperty(PropertyMetaData *) const override { return NULL; }
	Collection<string, PropertyMetaData>* getPropertiesForComponent(ComponentMetaData *) const override { return NULL; }
	PropertyMetaData* getPropertyForValue(ValueMetaData *) const override { return NULL; }
	Collection<string, PropertyMetaData>* getEvidencePropertiesForProperty(PropertyMetaData *) const override { return NULL; }
};
static int managers;
static void meta_strings(void) {
	fiftyoneDegreesCollection coll; memset((void *)&coll, 0, sizeof coll);
	coll.get = get_text; coll.release = hitem_release;
	texts.clear(); hitem_live = 0;
	for (uint32_t n = 1 + vr_below(8); n; n--) texts.push_back(vr_chance(1, 6) ? string(1 + vr_below(3000), 'q') : rtext());
	MyMeta *m; shared_ptr<fiftyoneDegreesResourceManager> held(new fiftyoneDegreesResourceManager(), [](fiftyoneDegreesResourceManager *p) { managers--; delete p; });
	managers++;
	m = new MyMeta(held); held.reset();
	VR_CHECK(managers == 1, "meta:manager", "the manager is gone while the metadata is used");
	for (int k = 0; k < 12; k++) {
		uint32_t i = vr_chance(1, 6) ? (uint32_t)texts.size() + vr_below(3) : vr_below((uint32_t)texts.size());
		broken = vr_chance(1, 8);
		bool bad = broken || i >= texts.size(), thrown = false;
		try {
			string s = vr_chance(1, 2) ? m->text(&coll, i) : MyBuilder::text(&coll, i);
			VR_CHECK(!bad && s == texts[i], "meta:string", "string %u is '%s'", i, E(s));
			vr_count("strings_read", 1);
		} catch (const FatalException &x) {
			thrown = true;
			VR_CHECK(bad && x.getCode() == (broken ? FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL : FIFTYONE_DEGREES_STATUS_COLLECTION_OFFSET_OUT_OF_RANGE), "meta:status", "string %u of %zu: status %d", i, texts.size(), (int)x.getCode());
			vr_count("strings_refused", 1);
		}
		VR_CHECK(thrown == bad, "meta:thrown", "string %u of %zu is %s", i, texts.size(), thrown ? "refused" : "given");
		VR_CHECK(hitem_live == 0, "meta:held", "%d strings are held", hitem_live);
	}
	delete m;
	VR_CHECK(managers == 0, "meta:manager", "the manager is left");
}
extern "C" void vr_run_case(uint64_t) {
	vr_alloc_reset(); hash = 29;
	if (meta) { entities(); meta_strings(); }
	else {
		required(); settings(); evidence(); out_of_memory();
	}
	vr_distinct("nontrivial", hash);
	if (vr_want_sample()) vr_sample("history %llx", (unsigned long long)hash);
	if (vr_alloc_live()) { char d[200]; vr_alloc_describe_live(d, sizeof d); vr_fail("cpp:leak", "left allocated: %s", d); }
}
