/* Items given to the library by a name getter: each is a block of exactly its
 * size that is freed by the release, so use after the release, reading past
 * the end, a forgotten or a repeated release are all seen. */
#ifndef HITEM_H
#define HITEM_H
#include "vrt.h"
#include "fiftyone.h"
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
static int hitem_live;
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
static void hitem_release(fiftyoneDegreesCollectionItem *i) {
	if (i->data.ptr) { hitem_live--; free(i->data.ptr); }
	else vr_fail("items:released-empty", "an item that holds nothing is released");
	i->data.ptr = NULL;
}
#define HITEM_KEEP(p) hitem_live++
#define HITEM_COUNTED 1
#else
/* nothing is released in this build: the blocks are kept until the next case */
static void **hitem_kept; static size_t hitem_at, hitem_room;
static void hitem_keep(void *p) {
	if (hitem_at == hitem_room) hitem_kept = (void **)realloc(hitem_kept, sizeof *hitem_kept * (hitem_room = hitem_room * 2 + 100));
	hitem_kept[hitem_at++] = p;
}
static void hitem_release(fiftyoneDegreesCollectionItem *i) { i->data.ptr = NULL; }
#define HITEM_COUNTED 0
#define HITEM_KEEP(p) hitem_keep(p)
#endif
/* at the start of a case */
static void hitem_begin(void) {
	hitem_live = 0;
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
	while (hitem_at) free(hitem_kept[--hitem_at]);
#endif
}
static fiftyoneDegreesCollection hitem_coll = { .release = hitem_release }; /* only ever released from */
static fiftyoneDegreesString *hitem_string(fiftyoneDegreesCollectionItem *item, const char *text) {
	size_t n = strlen(text) + 1;
	fiftyoneDegreesString *s = (fiftyoneDegreesString *)malloc(offsetof(fiftyoneDegreesString, value) + n);
	s->size = (int16_t)n;
	memcpy((char *)s + offsetof(fiftyoneDegreesString, value), text, n);
	item->data.ptr = (unsigned char *)s; item->data.used = item->data.allocated = 0;
	item->handle = NULL; item->collection = &hitem_coll;
	HITEM_KEEP(s);
	return s;
}
/* a copy of the text in a block without anything after it */
static char *exact(const char *text, size_t n, int terminated) {
	char *p = (char *)malloc(n + (terminated ? 1 : 0) + (n || terminated ? 0 : 1));
	memcpy(p, text, n); if (terminated) p[n] = 0;
	return p;
}
static int lower_(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int same_nocase(const char *a, size_t na, const char *b, size_t nb) {
	if (na != nb) return 0;
	for (size_t i = 0; i < na; i++) if (lower_((unsigned char)a[i]) != lower_((unsigned char)b[i])) return 0;
	return 1;
}
static void flip_case(char *s, size_t n, int always) {
	for (size_t i = 0; i < n; i++) if (always || vr_chance(1, 2)) {
		if (s[i] >= 'a' && s[i] <= 'z') s[i] -= 32; else if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32;
	}
}
#endif
