// The IP address class: same answers as inet_pton, and copies of what it holds.
#include "vrt.h"
#include "IpAddress.hpp"
#include <arpa/inet.h>
#include <cstring>
#include <new>
const char *vr_harness = "ipcpp";
using FiftyoneDegrees::IpIntelligence::IpAddress;
void vr_setup(void) { vr_alloc_install(); }
void vr_teardown(void) {}
static void check(const IpAddress &a, int type, const unsigned char *b, const char *what) {
	int n = type == 0 ? 4 : 16;
	VR_CHECK((int)a.getType() == type, "ipcpp:type", "%s: type %d, expected %d", what, a.getType(), type);
	VR_CHECK(memcmp(a.getIpAddress(), b, n) == 0, "ipcpp:bytes", "%s: wrong bytes", what);
	for (int k = 0; k < 3; k++) {
		uint32_t size = vr_below(24);
		unsigned char *c = new unsigned char[size ? size : 1];
		memset(c, 0x5A, size);
		a.getCopyOfIpAddress(c, size);
		uint32_t m = size < (uint32_t)n ? size : (uint32_t)n;
		VR_CHECK(memcmp(c, b, m) == 0, "ipcpp:copy", "%s: copy of %u bytes does not hold the address", what, size);
		int over = 0;
		for (uint32_t i = n; i < size; i++) over |= c[i] != 0x5A;
		VR_CHECK(!over, "ipcpp:copy", "%s: copy wrote past the %d bytes of the address", what, n);
		vr_count("copies", 1);
		delete[] c;
	}
}
void vr_run_case(uint64_t) {
	vr_alloc_reset();
	for (int k = 0; k < 10; k++) {
		unsigned char b[16]; char text[64];
		int v6 = vr_chance(1, 2);
		for (int i = 0; i < 16; i++) b[i] = vr_chance(1, 3) ? 0 : (unsigned char)vr_rand();
		inet_ntop(v6 ? AF_INET6 : AF_INET, b, text, sizeof text);
		vr_note_case("%s", text);
		IpAddress a(text);
		check(a, v6, b, text);
		IpAddress d(b, v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4);
		check(d, v6, b, "from bytes");
		IpAddress e = a;
		check(e, v6, b, "copy constructed");
		vr_distinct("nontrivial", vr_hash(text, strlen(text), 4));
		vr_sample("'%s'", text);
	}
	unsigned char zero[16] = { 0 };
	IpAddress none;
	VR_CHECK(none.getType() == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID && memcmp(none.getIpAddress(), zero, 16) == 0, "ipcpp:default", "default address is not the invalid one");
	vr_alloc_fail_at(1, 1);
	int threw = 0;
	try { IpAddress x("1.2.3.4"); } catch (const std::bad_alloc &) { threw = 1; }
	VR_CHECK(threw, "ipcpp:oom", "no exception when there is no memory");
	vr_alloc_no_fail();
	VR_CHECK(vr_alloc_live() == 0, "ipcpp:leak", "%zu blocks left", vr_alloc_live());
}
