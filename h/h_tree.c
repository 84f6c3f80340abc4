/* Ordered index against a model: after every insertion and removal the index
 * holds exactly the model's keys, finds each with its own node, none other,
 * iterates each once, and stays balanced. */
#include "vrt.h"
#include "tree.h"
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef fiftyoneDegreesTreeNode Node;
typedef fiftyoneDegreesTreeRoot Root;
const char *vr_harness = "tree";
#define MAXN 6000
static Node *nodes; static int64_t *keys; static char *in; static int order[MAXN];
void vr_setup(void) {}
void vr_teardown(void) {}

typedef struct { Root *root; int n; uint64_t hash; int depth, bad; const char *why; } walk_t;
static int walk(walk_t *w, Node *n, int depth, int64_t lo, int64_t hi, int haslo, int hashi) {
	Node *e = &w->root->empty;
	if (n == e) return 1;
	if (depth > 200) { w->bad = 1; w->why = "cycle or depth over 200"; return 0; }
	if (w->n++ > MAXN) { w->bad = 1; w->why = "more nodes than were inserted"; return 0; }
	if (depth > w->depth) w->depth = depth;
	if ((haslo && n->key <= lo) || (hashi && n->key >= hi)) { w->bad = 1; w->why = "keys out of order"; return 0; }
	if (n->root != w->root) { w->bad = 1; w->why = "node of another index"; return 0; }
	if ((n->left != e && n->left->parent != n) || (n->right != e && n->right->parent != n)) {
		w->bad = 1; w->why = "child does not name its parent"; return 0; }
	if (n->colour && (n->left->colour || n->right->colour)) { w->bad = 1; w->why = "red node with red child"; }
	int l = walk(w, n->left, depth + 1, lo, n->key, haslo, 1);
	if (w->bad) return 0;
	int r = walk(w, n->right, depth + 1, n->key, hi, 1, hashi);
	if (w->bad) return 0;
	if (l != r) { w->bad = 1; w->why = "unequal black heights"; return 0; }
	w->hash = vr_mix(w->hash, (uint64_t)depth * 4 + n->colour);
	return l + (n->colour == 0);
}
typedef struct { int calls; int dup; int foreign; int stamp; } it_t;
static int *seen; static int stamp;
static void on_node(void *state, Node *n) {
	it_t *s = state;
	long i = n - nodes;
	s->calls++;
	if (i < 0 || i >= MAXN || !in[i]) { s->foreign++; return; }
	if (seen[i] == stamp) s->dup++;
	seen[i] = stamp;
}
static void validate(Root *root, int n, int count, const char *op) {
	walk_t w = { root, 0, 0, 0, 0, NULL };
	walk(&w, root->root.left, 1, 0, 0, 0, 0);
	VR_CHECK(!w.bad, "tree:shape", "after %s: %s", op, w.why);
	if (w.bad) return;
	VR_CHECK(w.n == count, "tree:contents", "after %s: %d nodes reachable, %d expected", op, w.n, count);
	double bound = 2.0 * log2((double)count + 1.0) + 0.0001;
	VR_CHECK(w.depth <= bound, "tree:balance", "after %s: depth %d of %d nodes", op, w.depth, count);
	VR_CHECK(fiftyoneDegreesTreeCount(root) == (uint32_t)count, "tree:count", "after %s: count %u, expected %d", op, fiftyoneDegreesTreeCount(root), count);
	it_t s = { 0, 0, 0, 0 };
	stamp++;
	fiftyoneDegreesTreeIterateNodes(root, &s, on_node);
	VR_CHECK(s.calls == count && !s.dup && !s.foreign, "tree:iterate", "after %s: iteration gave %d nodes (%d repeated, %d not in the index), expected %d", op, s.calls, s.dup, s.foreign, count);
	if (count <= 40) vr_distinct("nontrivial", w.hash);
	vr_max("largest_index", (uint64_t)count);
	vr_max("deepest", (uint64_t)w.depth);
}
static void find_all(Root *root, int n, const char *op) {
	for (int i = 0; i < n; i++) {
		Node *f = fiftyoneDegreesTreeFind(root, keys[i]);
		VR_CHECK(f == (in[i] ? &nodes[i] : NULL), "tree:find", "after %s: find of key %lld gave %s", op, (long long)keys[i], f ? "a node it should not" : "nothing");
	}
}
static int cmp64(const void *a, const void *b) {
	int64_t x = *(int64_t *)a, y = *(int64_t *)b;
	return x < y ? -1 : x > y;
}
void vr_run_case(uint64_t ci) {
	int n, style = (int)vr_below(7), ops, every;
	nodes = malloc(MAXN * sizeof *nodes); keys = malloc(MAXN * sizeof *keys);
	in = calloc(MAXN, 1); seen = calloc(MAXN, sizeof *seen); stamp = 0;
	memset(nodes, 0xAB, MAXN * sizeof *nodes);
	n = ci % 50 == 49 ? 1000 + (int)vr_below(vr_thorough() ? 5000 : 1500) : 1 + (int)vr_below(vr_chance(1, 2) ? 12 : 120);
	every = n > 200 ? 97 : n > 40 ? 7 : 1;
	Root *root = malloc(sizeof *root);
	memset(root, 0xCD, sizeof *root);
	fiftyoneDegreesTreeRootInit(root);
	for (int i = 0; i < n; i++) {
		switch (style) {
		case 0: keys[i] = i; break;
		case 1: keys[i] = -i; break;
		case 2: keys[i] = (int64_t)vr_rand(); break;
		case 3: keys[i] = (int64_t)(vr_rand() << (32 + vr_below(20))) + i; break;
		case 4: keys[i] = i % 2 ? INT64_MAX - i : INT64_MIN + i; break;
		case 5: keys[i] = (int64_t)(uint32_t)vr_rand(); break;
		default: keys[i] = (int64_t)i * 16 - n * 8; break;
		}
	}
	/* distinct keys */
	int64_t *s = malloc((size_t)n * sizeof *s);
	memcpy(s, keys, (size_t)n * sizeof *s);
	qsort(s, (size_t)n, sizeof *s, cmp64);
	int m = 0;
	for (int i = 0; i < n; i++) if (i == 0 || s[i] != s[i - 1]) s[m++] = s[i];
	n = m;
	if (style == 2 || style == 3 || style == 5) for (int i = n - 1; i > 0; i--) {
		int j = (int)vr_below((uint32_t)i + 1); int64_t t = s[i]; s[i] = s[j]; s[j] = t; }
	else if (style == 1) for (int i = 0; i < n / 2; i++) { int64_t t = s[i]; s[i] = s[n - 1 - i]; s[n - 1 - i] = t; }
	memcpy(keys, s, (size_t)n * sizeof *s);
	free(s);
	for (int i = 0; i < n; i++) {
		fiftyoneDegreesTreeNodeInit(&nodes[i], root);
		nodes[i].key = keys[i];
		order[i] = i;
	}
	vr_note_case("style %d, %d keys", style, n);
	int count = 0, phase = (int)vr_below(3);
	ops = n * (2 + (int)vr_below(4));
	validate(root, n, 0, "start");
	for (int o = 0; o < ops; o++) {
		int i = (int)vr_below((uint32_t)n);
		const char *op;
		if (phase == 0 && o < n) i = o;                 /* fill in order */
		if (phase == 1 && o >= n) i = (o - n) % n;      /* drain in order */
		/* drive between full and empty */
		if (vr_chance(1, 8)) { for (int k = 0; k < n; k++) { int j = (i + k) % n; if (in[j] == ((o / n) & 1)) { i = j; break; } } }
		if (!in[i]) {
			fiftyoneDegreesTreeInsert(&nodes[i]);
			in[i] = 1; count++; op = "insert";
			vr_count("inserts", 1);
		}
		else {
			fiftyoneDegreesTreeDelete(&nodes[i]);
			fiftyoneDegreesTreeNodeRemove(&nodes[i]);
			in[i] = 0; count--; op = "remove";
			vr_count("removes", 1);
		}
		if (o % every == 0) validate(root, n, count, op);
		if (n <= 24 || o % (every * 5) == 0) find_all(root, n, op);
		for (int k = 0; k < 3; k++) {
			int64_t q = vr_chance(1, 2) ? (int64_t)((uint64_t)keys[vr_below((uint32_t)n)] + (uint64_t)(int64_t)vr_between(-1, 1)) : (int64_t)vr_rand();
			Node *f = fiftyoneDegreesTreeFind(root, q);
			Node *want = NULL;
			for (int j = 0; j < n; j++) if (in[j] && keys[j] == q) want = &nodes[j];
			VR_CHECK(f == want, "tree:find", "find of key %lld gave the wrong answer", (long long)q);
		}
	}
	validate(root, n, count, "all");
	find_all(root, n, "all");
	/* drain */
	for (int i = 0; i < n; i++) if (in[i]) {
		fiftyoneDegreesTreeDelete(&nodes[i]);
		fiftyoneDegreesTreeNodeRemove(&nodes[i]);
		in[i] = 0; count--;
		if (i % every == 0) validate(root, n, count, "drain");
	}
	validate(root, n, 0, "drain");
	vr_sample("key style %d, %d keys, %d operations", style, n, ops);
	free(root); free(nodes); free(keys); free(in); free(seen);
}
