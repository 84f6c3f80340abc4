/* Native floats, their portable byte form and coordinates. Each case is a run
 * of consecutive bit patterns (exhaustive over 2^32 with --opt chunks=65536) */
#include "vrt.h"
#include "fiftyone.h"
#include "coordinate.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *vr_harness = "float";
void vr_setup(void) { vr_alloc_install(); }
void vr_teardown(void) {}

static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t to_bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint32_t form_bits(fiftyoneDegreesFloatInternal v) {
	return (uint32_t)v.value[0] | (uint32_t)v.value[1] << 8 | (uint32_t)v.value[2] << 16 | (uint32_t)v.value[3] << 24;
}
static fiftyoneDegreesFloatInternal form_of(uint32_t b) {
	fiftyoneDegreesFloatInternal v;
	for (int i = 0; i < 4; i++) v.value[i] = (byte)(b >> (8 * i));
	return v;
}
/* class by the bits, not by the library or libm */
enum { NORMAL, SUB, ZERO, INF_, NAN_ };
static int klass(uint32_t b) {
	uint32_t e = b >> 23 & 255, m = b & 0x7FFFFF;
	return e == 255 ? (m ? NAN_ : INF_) : e ? NORMAL : m ? SUB : ZERO;
}
/* -1 when right, else what is wrong */
static const char *wrong(uint32_t b) {
	float f = from_bits(b), back;
	fiftyoneDegreesFloatInternal v = fiftyoneDegreesNativeToFloat(f);
	uint32_t vb = form_bits(v);
	switch (klass(b)) {
	case NORMAL: case SUB:
		if (vb != b) return "bytes";
		if (to_bits(fiftyoneDegreesFloatToNative(v)) != b) return "round trip";
		if (fiftyoneDegreesFloatIsEqual(v, form_of(b)) != 0) return "equality with itself";
		return NULL;
	case ZERO: /* the sign of zero is not a value */
		if (klass(vb) != ZERO) return "zero bytes";
		back = fiftyoneDegreesFloatToNative(v);
		if (klass(to_bits(back)) != ZERO || klass(to_bits(fiftyoneDegreesFloatToNative(form_of(b)))) != ZERO) return "zero round trip";
		return NULL;
	case INF_: /* stored as all ones in the library's form; no sign */
		if ((vb & 0x7FFFFFFF) != 0x7FFFFFFF) return "infinity bytes";
		if (klass(to_bits(fiftyoneDegreesFloatToNative(v))) != INF_) return "infinity round trip";
		return NULL;
	default: /* not the pattern of the infinity */
		if (klass(vb) != NAN_ || (vb & 0x7FFFFF) == 0x7FFFFF) return "NaN bytes";
		if (klass(to_bits(fiftyoneDegreesFloatToNative(v))) != NAN_) return "NaN round trip";
		return NULL;
	}
}
static const char *names[] = { "normal floats", "subnormal floats", "zeros", "infinities", "NaNs" };
static void equality(void) {
	for (int i = 0; i < 200; i++) {
		uint32_t a = (uint32_t)vr_rand(), b = a;
		if (vr_chance(2, 3)) b ^= 1u << vr_below(32);
		if (vr_chance(1, 3)) b = (uint32_t)vr_rand();
		int r = fiftyoneDegreesFloatIsEqual(form_of(a), form_of(b));
		VR_CHECK((r == 0) == (a == b) && (r == 0 || r == 1), "float:equal", "%08x and %08x compare as %d", a, b, r);
	}
	vr_count("comparisons", 200);
}
static void coordinates(void) {
	for (int i = 0; i < 100; i++) {
		fiftyoneDegreesString *s;
		fiftyoneDegreesCollectionItem item;
		EXCEPTION_CREATE;
		uint32_t lat = (uint32_t)vr_rand(), lon = (uint32_t)vr_rand();
		int isc = !vr_chance(1, 4);
		size_t n = isc ? sizeof(int16_t) + 1 + 8 : sizeof(int16_t) + 1 + vr_below(12);
		char *block = malloc(n);
		unsigned char type = isc ? FIFTYONE_DEGREES_STRING_COORDINATE : vr_chance(1, 2) ? FIFTYONE_DEGREES_STRING_IP_ADDRESS : (unsigned char)vr_rand();
		int16_t size = (int16_t)(n - 2);
		if (!isc && type == FIFTYONE_DEGREES_STRING_COORDINATE) type = 'x';
		if (klass(lat) > SUB) lat = 0x42f6e979;
		if (klass(lon) > SUB) lon = 0xc2f6e979;
		memset(block, 0x5A, n);
		memcpy(block, &size, 2); block[2] = (char)type;
		if (isc) {
			fiftyoneDegreesFloatInternal v = form_of(lat);
			memcpy(block + 3, &v, 4);
			v = form_of(lon); memcpy(block + 7, &v, 4);
		}
		s = (fiftyoneDegreesString *)block;
		fiftyoneDegreesDataReset(&item.data);
		item.data.ptr = (byte *)s;
		item.collection = NULL; item.handle = NULL;
		fiftyoneDegreesCoordinate c = fiftyoneDegreesIpiGetCoordinate(&item, exception);
		if (isc) {
			VR_CHECK(EXCEPTION_OKAY, "coordinate:status", "a coordinate gave status %d", exception->status);
			VR_CHECK(to_bits(c.lat) == lat && to_bits(c.lon) == lon, "coordinate:value", "stored %08x,%08x read %08x,%08x", lat, lon, to_bits(c.lat), to_bits(c.lon));
			vr_count("coordinates", 1);
		} else {
			VR_CHECK(exception->status == FIFTYONE_DEGREES_STATUS_CORRUPT_DATA, "coordinate:reported", "a string of type %d read as coordinate gave status %d", type, exception->status);
			VR_CHECK(c.lat == 0 && c.lon == 0, "coordinate:zero", "a string of type %d gave coordinate %g,%g", type, c.lat, c.lon);
			vr_count("not_coordinates", 1);
		}
		free(block);
	}
}
/* any bytes at all may be in the file */
static void hostile(void) {
	for (int i = 0; i < 200; i++) {
		uint32_t b = (uint32_t)vr_rand();
		if (vr_chance(1, 4)) b |= 0x7F800000;
		if (vr_chance(1, 4)) b &= ~0x7F800000u;
		uint32_t r = to_bits(fiftyoneDegreesFloatToNative(form_of(b)));
		int k = klass(b);
		if (k == NORMAL || k == SUB) VR_CHECK(r == b, "float:read", "bytes %08x read as %08x", b, r);
		else if (k == ZERO) VR_CHECK(klass(r) == ZERO, "float:read", "bytes %08x read as %08x", b, r);
		else if ((b & 0x7FFFFF) == 0x7FFFFF) VR_CHECK(klass(r) == INF_, "float:read", "bytes %08x read as %08x", b, r);
		else if ((b & 0x7FFFFF) == 0) VR_CHECK(klass(r) >= INF_, "float:read", "bytes %08x read as %08x", b, r);
		else VR_CHECK(klass(r) == NAN_, "float:read", "bytes %08x read as %08x", b, r);
	}
	vr_count("byte_forms_read", 200);
}
void vr_run_case(uint64_t i) {
	long chunks = vr_opt_int("chunks", 0), n = vr_opt_int("run", 65536), count[5] = {0};
	uint32_t start = chunks ? (uint32_t)(i * 40503u & 65535u) * 65536u : (uint32_t)vr_rand();
	if (!chunks) switch (vr_below(5)) {
	case 0: start &= 0xFF800000u; start -= (uint32_t)n / 2; break;          /* about a power of two */
	case 1: start = (vr_chance(1, 2) ? 0x80000000u : 0) | (start & 0x7FFFFF); break; /* subnormal */
	case 2: start = (vr_chance(1, 2) ? 0x80000000u : 0) - (uint32_t)n / 2; break;
	case 3: start = (vr_chance(1, 2) ? 0x7F800000u : 0xFF800000u) - (uint32_t)n / 2; break;
	default: break;
	}
	vr_note_case("floats %08x + %ld", start, n);
	for (long k = 0; k < n; k++) {
		uint32_t b = start + (uint32_t)k;
		const char *w = wrong(b);
		count[klass(b)]++;
		if (w) {
			vr_fail("float:convert", "%s (%s) of bits %08x (%.9g): bytes %08x, back %08x", w, names[klass(b)], b, from_bits(b),
				form_bits(fiftyoneDegreesNativeToFloat(from_bits(b))), to_bits(fiftyoneDegreesFloatToNative(fiftyoneDegreesNativeToFloat(from_bits(b)))));
			break;
		}
	}
	vr_count("oracle_checks", (uint64_t)n);
	for (int k = 0; k < 5; k++) if (count[k]) vr_count(names[k], (uint64_t)count[k]);
	vr_distinct("nontrivial", vr_mix(start, 23));
	if (vr_want_sample()) vr_sample("%ld floats from %08x (%.9g)", n, start, from_bits(start));
	if (!chunks || (i & 63) == 0) { equality(); coordinates(); hostile(); }
}
