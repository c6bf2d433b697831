/* header-only modules of libmy behind plain functions, for the concurrency check */
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "hex_decode.h"
#include "string_replace.h"
#include "print_string.h"
#include "getenv_int.h"
#include "ip_arith.h"
#include "list.h"
#include "tree.h"
#include "ubuf.h"
bool c_hex_decode(const char *h, uint8_t **raw, size_t *len) { return hex_decode(h, raw, len); }
char *c_string_replace(const char *s, const char *o, const char *n) { return string_replace(s, o, n); }
void c_print_string(const void *d, size_t n, FILE *f) { print_string(d, n, f); }
bool c_getenv_int(const char *n, uint64_t *v) { return getenv_int(n, v); }
void c_ip(uint8_t *a, int six, unsigned len, int what) { if (six) { if (what == 0) ip6_lower(a, len, a); else if (what == 1) ip6_upper(a, len, a); else ip6_incr(a); } else { if (what == 0) ip4_lower(a, len, a); else if (what == 1) ip4_upper(a, len, a); else ip4_incr(a); } }
char *c_ubuf(const char *s, int k) {
	ubuf *u = ubuf_new(); char *r; size_t n;
	ubuf_add_cstr(u, s); ubuf_add_fmt(u, "<%d:%s>", k, s); ubuf_rstrip(u, '>'); ubuf_append(u, (const uint8_t *) "xyz", 3); ubuf_clip(u, ubuf_size(u) - 1);
	for (int i = 0; i < 70; i++) ubuf_add(u, 'a' + (i + k) % 26);
	ubuf_cterm(u); ubuf_detach(u, (uint8_t **) &r, &n); ubuf_destroy(&u); return r;
}
struct node { int k; RB_ENTRY(node) rb; SPLAY_ENTRY(node) sp; ISC_LINK(struct node) l; };
static int cmp(struct node *a, struct node *b) { return a->k < b->k ? -1 : a->k > b->k; }
RB_HEAD(rbt, node);
SPLAY_HEAD(spt, node);
RB_PROTOTYPE(rbt, node, rb, cmp)
RB_GENERATE(rbt, node, rb, cmp)
SPLAY_PROTOTYPE(spt, node, sp, cmp)
SPLAY_GENERATE(spt, node, sp, cmp)
char *c_trees(int k) {
	struct node *n = calloc(8, sizeof *n), q, *p; struct rbt r = RB_INITIALIZER(&r); struct spt s = SPLAY_INITIALIZER(&s); ISC_LIST(struct node) l; char *o = malloc(200); int at = 0;
	ISC_LIST_INIT(l);
	for (int i = 0; i < 8; i++) { n[i].k = (i * 5 + k) % 8 * 2; ISC_LINK_INIT(&n[i], l); RB_INSERT(rbt, &r, &n[i]); SPLAY_INSERT(spt, &s, &n[i]); ISC_LIST_APPEND(l, &n[i], l); }
	RB_REMOVE(rbt, &r, &n[k]); SPLAY_REMOVE(spt, &s, &n[k + 1]); ISC_LIST_UNLINK(l, &n[k + 2], l);
	RB_FOREACH(p, rbt, &r) at += sprintf(o + at, "%d ", p->k);
	SPLAY_FOREACH(p, spt, &s) at += sprintf(o + at, "%d ", p->k);
	for (p = ISC_LIST_HEAD(l); p; p = ISC_LIST_NEXT(p, l)) at += sprintf(o + at, "%d ", p->k);
	q.k = 5 + k; p = RB_NFIND(rbt, &r, &q); at += sprintf(o + at, "%d ", p ? p->k : -1); p = SPLAY_FIND(spt, &s, &q); at += sprintf(o + at, "%d", p ? p->k : -1);
	free(n); return o;
}
