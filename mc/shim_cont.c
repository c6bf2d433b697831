/* instances of the container macros, behind plain functions */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include "tree.h"
#include "list.h"
#include "ubuf.h"
#include "ubuf-pb.h"
#include "shim_cont.h"

/* ---- vectors ---- */
struct s12 { uint32_t a, b, c; };
#define MKu8(v) ((uint8_t)(v))
#define GTu8(x) ((uint64_t)(x))
#define MKu32(v) ((uint32_t)(v) * 2654435761u)
#define GTu32(x) ((uint64_t)(x) * 244002641u & 0xffffffffu)
static struct s12 MKs12(uint64_t v) { struct s12 s = { (uint32_t)v, (uint32_t)~v, (uint32_t)(v * 7) }; return s; }
static uint64_t GTs12(struct s12 s) { return s.b == (uint32_t)~s.a && s.c == (uint32_t)(s.a * 7) ? s.a : UINT64_MAX; }
#define MKptr(v) ((void *)(uintptr_t)(v))
#define GTptr(x) ((uint64_t)(uintptr_t)(x))
VECTOR_GENERATE(vu32, uint32_t)
VECTOR_GENERATE(vs12, struct s12)
VECTOR_GENERATE(vptr, void *)
#define OPS(n, T, t) \
static void *t##_init(unsigned h) { return n##_init(h); } \
static void *t##_reinit(unsigned h) { n *v = malloc(sizeof *v); memset(v, 0xdb, sizeof *v); n##_reinit(h, v); return v; } \
static void t##_destroy(void **v) { n *x = *v; n##_destroy(&x); *v = x; } \
static void t##_add(void *v, uint64_t e) { n##_add(v, MK##t(e)); } \
static void t##_append(void *v, uint64_t first, size_t k) { T *a = malloc(k * sizeof(T)); if (a == NULL) abort(); for (size_t i = 0; i < k; i++) a[i] = MK##t(first + i); n##_append(v, a, k); free(a); } \
static void t##_extend(void *v, void *w) { n##_extend(v, w); } \
static void t##_reserve(void *v, size_t k) { n##_reserve(v, k); } \
static void t##_write(void *v, uint64_t first, size_t k) { T *p = n##_ptr(v); for (size_t i = 0; i < k; i++) p[i] = MK##t(first + i); } \
static void t##_advance(void *v, size_t k) { n##_advance(v, k); } \
static void t##_clip(void *v, size_t k) { n##_clip(v, k); } \
static void t##_reset(void *v) { n##_reset(v); } \
static void *t##_detach(void *v, size_t *sz) { T *o = NULL; n##_detach(v, &o, sz); return o; } \
static size_t t##_size(void *v) { return n##_size(v); } \
static size_t t##_bytes(void *v) { return n##_bytes(v); } \
static uint64_t t##_value(void *v, size_t i) { return GT##t(n##_value(v, i)); } \
static void *t##_data(void *v) { return n##_data(v); } \
static void *t##_ptr(void *v) { return n##_ptr(v); } \
static uint64_t t##_at(void *a, size_t i) { return GT##t(((T *)a)[i]); } \
const struct vops t##_ops = { sizeof(T), t##_init, t##_reinit, t##_destroy, t##_add, t##_append, t##_extend, t##_reserve, t##_write, t##_advance, t##_clip, t##_reset, t##_detach, t##_size, t##_bytes, t##_value, t##_data, t##_ptr, t##_at };
OPS(ubuf, uint8_t, u8)
OPS(vu32, uint32_t, u32)
OPS(vs12, struct s12, s12)
OPS(vptr, void *, ptr)

void *s_ubuf_new(void) { return ubuf_new(); }
void *s_ubuf_dup_cstr(const char *s) { return ubuf_dup_cstr(s); }
void s_ubuf_add_cstr(void *u, const char *s) { ubuf_add_cstr(u, s); }
void s_ubuf_cterm(void *u) { ubuf_cterm(u); }
char *s_ubuf_cstr(void *u) { return ubuf_cstr(u); }
void s_ubuf_fmt_s(void *u, const char *s) { ubuf_add_fmt(u, "%s", s); }
void s_ubuf_fmt_d(void *u, int d, const char *s) { ubuf_add_fmt(u, "<%d:%s>%c", d, s, '!'); }
void s_ubuf_fmt_0(void *u) { ubuf_add_fmt(u, "plain 100%%"); }
void s_ubuf_rstrip(void *u, char c) { ubuf_rstrip(u, c); }
void s_ubuf_lit(void *u) { ubuf_append_cstr_lit(u, "lit"); }
void s_ubuf_pb(void *u, const void *d, size_t n) { struct ubuf_protobuf_c_buffer b = UBUF_PROTOBUF_C_BUFFER_INIT(u); b.base.append(&b.base, n, d); }
void s_ubuf_append_cstr(void *u, const char *s, size_t n) { ubuf_append_cstr(u, s, n); }

/* ---- trees and lists over one arena, so that a memcpy of the arena is a snapshot ---- */
struct node { int key, id; RB_ENTRY(node) rb; SPLAY_ENTRY(node) sp; ISC_LINK(struct node) ln; };
RB_HEAD(rbt, node);
SPLAY_HEAD(spt, node);
typedef ISC_LIST(struct node) list_t;
static struct { struct node n[CONT_K + 1]; struct rbt rb; struct spt sp; list_t l[2]; } A;
static int cmp(struct node *a, struct node *b) { static const int mag[] = { 1, 256, 65536, 0x7fffffff }; int v = mag[(unsigned)(a->key + b->key) % 4]; return a->key < b->key ? -v : a->key > b->key ? v : 0; }	/* only the sign counts */
RB_PROTOTYPE(rbt, node, rb, cmp)
RB_GENERATE(rbt, node, rb, cmp)
SPLAY_PROTOTYPE(spt, node, sp, cmp)
SPLAY_GENERATE(spt, node, sp, cmp)

void *arena(size_t *n) { *n = sizeof A; return &A; }
void arena_init(void)
{
	memset(&A, 0, sizeof A);
	for (int i = 0; i <= CONT_K; i++) { A.n[i].id = i; A.n[i].key = 2 * i + 1; memset(&A.n[i].rb, 0xdb, sizeof A.n[i].rb); memset(&A.n[i].sp, 0xdb, sizeof A.n[i].sp); ISC_LINK_INIT_TYPE(&A.n[i], ln, struct node); }
	RB_INIT(&A.rb); SPLAY_INIT(&A.sp); ISC_LIST_INIT(A.l[0]); ISC_LIST_INIT(A.l[1]);
}
static int id(struct node *n) { return n == NULL ? -1 : n >= A.n && n <= A.n + CONT_K && ((char *)n - (char *)A.n) % sizeof *n == 0 ? n->id : -2; }
static struct node *probe(int key) { static struct node p; memset(&p, 0xdb, sizeof p); p.id = -3; p.key = key; return &p; }
static struct node *twin(int i) { A.n[CONT_K].key = A.n[i].key; return &A.n[CONT_K]; }

int rb_insert(int i) { return id(RB_INSERT(rbt, &A.rb, &A.n[i])); }
int rb_insert_twin(int i) { int r = id(RB_INSERT(rbt, &A.rb, twin(i))); return r; }
int rb_remove(int i) { int r = id(RB_REMOVE(rbt, &A.rb, &A.n[i])); memset(&A.n[i].rb, 0xdb, sizeof A.n[i].rb); return r; }
int rb_find(int key) { return id(RB_FIND(rbt, &A.rb, probe(key))); }
int rb_nfind(int key) { return id(RB_NFIND(rbt, &A.rb, probe(key))); }
int rb_min(void) { return id(RB_MIN(rbt, &A.rb)); }
int rb_max(void) { return id(RB_MAX(rbt, &A.rb)); }
int rb_next(int i) { return id(RB_NEXT(rbt, &A.rb, &A.n[i])); }
int rb_prev(int i) { return id(RB_PREV(rbt, &A.rb, &A.n[i])); }
int rb_root(void) { return id(RB_ROOT(&A.rb)); }
int rb_empty(void) { return RB_EMPTY(&A.rb); }
int rb_left(int i) { return id(RB_LEFT(&A.n[i], rb)); }
int rb_right(int i) { return id(RB_RIGHT(&A.n[i], rb)); }
int rb_parent(int i) { return id(RB_PARENT(&A.n[i], rb)); }
int rb_red(int i) { return RB_COLOR(&A.n[i], rb) == RB_RED; }
size_t rb_foreach(int *out, size_t max) { struct node *n; size_t k = 0; RB_FOREACH(n, rbt, &A.rb) { if (k >= max) return k + 1; out[k++] = id(n); } return k; }
size_t rb_foreach_reverse(int *out, size_t max) { struct node *n; size_t k = 0; RB_FOREACH_REVERSE(n, rbt, &A.rb) { if (k >= max) return k + 1; out[k++] = id(n); } return k; }

int sp_insert(int i) { return id(SPLAY_INSERT(spt, &A.sp, &A.n[i])); }
int sp_insert_twin(int i) { return id(SPLAY_INSERT(spt, &A.sp, twin(i))); }
int sp_remove(int i) { int r = id(SPLAY_REMOVE(spt, &A.sp, &A.n[i])); if (r == i) memset(&A.n[i].sp, 0xdb, sizeof A.n[i].sp); return r; }
int sp_find(int key) { return id(SPLAY_FIND(spt, &A.sp, probe(key))); }
int sp_min(void) { return id(SPLAY_MIN(spt, &A.sp)); }
int sp_max(void) { return id(SPLAY_MAX(spt, &A.sp)); }
int sp_next(int i) { return id(SPLAY_NEXT(spt, &A.sp, &A.n[i])); }
int sp_root(void) { return id(SPLAY_ROOT(&A.sp)); }
int sp_empty(void) { return SPLAY_EMPTY(&A.sp); }
int sp_left(int i) { return id(SPLAY_LEFT(&A.n[i], sp)); }
int sp_right(int i) { return id(SPLAY_RIGHT(&A.n[i], sp)); }
size_t sp_foreach(int *out, size_t max) { struct node *n; size_t k = 0; SPLAY_FOREACH(n, spt, &A.sp) { if (k >= max) return k + 1; out[k++] = id(n); } return k; }

void l_append(int l, int i, int how) { struct node *e = &A.n[i]; if (how == 0) ISC_LIST_APPEND(A.l[l], e, ln); else if (how == 1) ISC_LIST_INITANDAPPEND(A.l[l], e, ln); else ISC_LIST_ENQUEUE(A.l[l], e, ln); }
void l_prepend(int l, int i, int how) { struct node *e = &A.n[i]; if (how == 0) ISC_LIST_PREPEND(A.l[l], e, ln); else ISC_LIST_INITANDPREPEND(A.l[l], e, ln); }
void l_before(int l, int at, int i) { struct node *b = &A.n[at], *e = &A.n[i]; ISC_LIST_INSERTBEFORE(A.l[l], b, e, ln); }
void l_after(int l, int at, int i) { struct node *b = &A.n[at], *e = &A.n[i]; ISC_LIST_INSERTAFTER(A.l[l], b, e, ln); }
void l_unlink(int l, int i, int how) { struct node *e = &A.n[i]; if (how == 0) ISC_LIST_UNLINK_TYPE(A.l[l], e, ln, struct node); else if (how == 1) ISC_LIST_UNLINK(A.l[l], e, ln); else ISC_LIST_DEQUEUE_TYPE(A.l[l], e, ln, struct node); }
void l_appendlist(int a, int b) { if (a == 0 && b == 1) ISC_LIST_APPENDLIST(A.l[0], A.l[1], ln); else ISC_LIST_APPENDLIST(A.l[1], A.l[0], ln); }
void l_init(int l) { ISC_LIST_INIT(A.l[l]); }
int l_head(int l) { return id(ISC_LIST_HEAD(A.l[l])); }
int l_tail(int l) { return id(ISC_LIST_TAIL(A.l[l])); }
int l_empty(int l) { return ISC_LIST_EMPTY(A.l[l]); }
int l_next(int i) { return id(ISC_LIST_NEXT(&A.n[i], ln)); }
int l_prev(int i) { return id(ISC_LIST_PREV(&A.n[i], ln)); }
int l_linked(int i) { return ISC_LINK_LINKED(&A.n[i], ln); }

/* ---- large trees and lists: built, queried and taken apart in fixed patterns; NULL or what is wrong ---- */
#include <stdio.h>
#include <stdbool.h>
static char bad[200];
#define BAD(...) do { snprintf(bad, sizeof bad, __VA_ARGS__); r = bad; goto out; } while (0)
static size_t place(size_t n, int pat, size_t i)		/* the i-th of n in a pattern: every number below n once */
{
	switch (pat) {
	case 0: return i;
	case 1: return n - 1 - i;
	case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
	case 3: { size_t h = n / 2; return i % 2 ? h + i / 2 < n && (n % 2 == 0 || i / 2 < n - h) ? h + i / 2 : n - 1 : i / 2 < h ? i / 2 : n - 1; }
	default: { size_t m = 7919; while (n % m == 0) m += 2; for (size_t a = m, b = n;; m++, a = m, b = n) { while (b) { size_t t = a % b; a = b; b = t; } if (a == 1) break; } return (i * (m % n)) % n; }
	}
}
static int black(struct node *x, struct node *up, size_t *cnt)	/* black height, -1 when the rules are broken */
{
	if (x == NULL) return 0;
	if (RB_PARENT(x, rb) != up || (up != NULL && RB_COLOR(up, rb) == RB_RED && RB_COLOR(x, rb) == RB_RED) || ++*cnt > 1000000) return -1;
	int a = black(RB_LEFT(x, rb), x, cnt), b = black(RB_RIGHT(x, rb), x, cnt);
	return a < 0 || a != b ? -1 : a + (RB_COLOR(x, rb) == RB_BLACK);
}
static const char *whole(struct rbt *t, struct node *n, const bool *in, size_t N)
{
	const char *r = NULL; size_t cnt = 0, have = 0, i = 0; struct node *x;
	if (RB_ROOT(t) != NULL && RB_COLOR(RB_ROOT(t), rb) == RB_RED) BAD("the root is red");
	if (black(RB_ROOT(t), NULL, &cnt) < 0) BAD("the balance rules are broken");
	for (size_t k = 0; k < N; k++) have += in[k];
	if (cnt != have) BAD("%zu elements are inside, expected %zu", cnt, have);
	RB_FOREACH(x, rbt, t) { while (i < N && !in[i]) i++; if (i >= N || x != &n[i]) BAD("enumeration is wrong"); i++; }
	while (i < N && !in[i]) i++;
	if (i < N) BAD("enumeration ends early");
	RB_FOREACH_REVERSE(x, rbt, t) { while (i > 0 && !in[i - 1]) i--; if (i == 0 || x != &n[i - 1]) BAD("reverse enumeration is wrong"); i--; }
	while (i > 0 && !in[i - 1]) i--;
	if (i > 0) BAD("reverse enumeration ends early");
out:	return r;
}
const char *big_rb(size_t N, int ins, int rem)
{
	const char *r = NULL; struct node *n = calloc(N, sizeof *n); bool *in = calloc(N, 1); struct rbt t = RB_INITIALIZER(&t); size_t step = N / 8 + 1;
	for (size_t i = 0; i < N; i++) n[i].key = 2 * (int)i + 1;
	for (size_t i = 0; i < N; i++) {
		size_t k = place(N, ins, i); if (RB_INSERT(rbt, &t, &n[k]) != NULL) BAD("inserting %zu finds it inside", k);
		in[k] = true; if (i % step == 0 && (r = whole(&t, n, in, N)) != NULL) goto out;
	}
	if ((r = whole(&t, n, in, N)) != NULL) goto out;
	if (RB_MIN(rbt, &t) != &n[0] || RB_MAX(rbt, &t) != &n[N - 1]) BAD("minimum or maximum is wrong");
	for (size_t i = 0; i < N; i++) {
		if (RB_INSERT(rbt, &t, probe(2 * (int)i + 1)) != &n[i] || RB_FIND(rbt, &t, probe(2 * (int)i + 1)) != &n[i]) BAD("%zu is not found", i);
		if (RB_FIND(rbt, &t, probe(2 * (int)i)) != NULL || RB_NFIND(rbt, &t, probe(2 * (int)i)) != &n[i] || RB_NFIND(rbt, &t, probe(2 * (int)i + 1)) != &n[i]) BAD("the nearest to %zu is wrong", i);
	}
	if (RB_NFIND(rbt, &t, probe(2 * (int)N)) != NULL) BAD("something is behind the last");
	for (size_t i = 0; i < N; i++) {
		size_t k = place(N, rem, i); if (RB_REMOVE(rbt, &t, &n[k]) != &n[k]) BAD("removing %zu gives something else", k);
		in[k] = false; if (i % step == 0 && (r = whole(&t, n, in, N)) != NULL) goto out;
		if (RB_FIND(rbt, &t, probe(2 * (int)k + 1)) != NULL) BAD("%zu is found after it was removed", k);
	}
	if (!RB_EMPTY(&t)) BAD("not empty in the end");
out:	free(n); free(in); return r;
}
const char *big_splay(size_t N, int ins, int rem)
{
	const char *r = NULL; struct node *n = calloc(N, sizeof *n), *x; struct spt t = SPLAY_INITIALIZER(&t); size_t i;
	for (i = 0; i < N; i++) n[i].key = 2 * (int)i + 1;
	for (i = 0; i < N; i++) { size_t k = place(N, ins, i); if (SPLAY_INSERT(spt, &t, &n[k]) != NULL) BAD("inserting %zu finds it inside", k); }
	i = 0; SPLAY_FOREACH(x, spt, &t) { if (i >= N || x != &n[i]) BAD("enumeration is wrong"); i++; }
	if (i != N) BAD("enumeration ends early");
	for (i = 0; i < N; i++) { size_t k = place(N, rem, i); if (SPLAY_FIND(spt, &t, probe(2 * (int)k + 1)) != &n[k] || SPLAY_FIND(spt, &t, probe(2 * (int)k)) != NULL) BAD("find of %zu is wrong", k); }
	if (SPLAY_MIN(spt, &t) != &n[0] || SPLAY_MAX(spt, &t) != &n[N - 1]) BAD("minimum or maximum is wrong");
	for (i = 0; i < N; i++) { size_t k = place(N, rem, i); if (SPLAY_REMOVE(spt, &t, &n[k]) != &n[k]) BAD("removing %zu gives something else", k); if (SPLAY_FIND(spt, &t, probe(2 * (int)k + 1)) != NULL) BAD("%zu is found after it was removed", k); }
	if (!SPLAY_EMPTY(&t)) BAD("not empty in the end");
out:	free(n); return r;
}
const char *big_list(size_t N, int ins, int rem)
{
	const char *r = NULL; struct node *n = calloc(N, sizeof *n); list_t l, m; size_t i, lo = N / 2, hi = N / 2;
	ISC_LIST_INIT(l); ISC_LIST_INIT(m);
	for (i = 0; i < N; i++) ISC_LINK_INIT_TYPE(&n[i], ln, struct node);
	for (i = 0; i < N; i++) {				/* n[lo..hi) is inside, in order */
		struct node *e; bool front = ins == 0 ? false : ins == 1 ? true : i % 2; if (lo == 0) front = false; if (hi == N) front = true;
		if (front) { e = &n[--lo]; if (ins < 3 || ISC_LIST_EMPTY(l)) ISC_LIST_PREPEND(l, e, ln); else ISC_LIST_INSERTBEFORE(l, &n[lo + 1], e, ln); }
		else { e = &n[hi++]; if (ins < 3 || ISC_LIST_EMPTY(l)) ISC_LIST_APPEND(l, e, ln); else ISC_LIST_INSERTAFTER(l, &n[hi - 2], e, ln); }
	}
	i = 0; for (struct node *x = ISC_LIST_HEAD(l); x != NULL; x = ISC_LIST_NEXT(x, ln)) { if (i >= N || x != &n[i]) BAD("forward enumeration is wrong"); i++; }
	if (i != N) BAD("forward enumeration ends early");
	for (struct node *x = ISC_LIST_TAIL(l); x != NULL; x = ISC_LIST_PREV(x, ln)) { if (i == 0 || x != &n[i - 1]) BAD("backward enumeration is wrong"); i--; }
	if (i != 0) BAD("backward enumeration ends early");
	for (i = 0; i < N; i++) if (place(N, rem, i) % 3 == 0) { struct node *e = &n[place(N, rem, i)]; ISC_LIST_UNLINK_TYPE(l, e, ln, struct node); ISC_LIST_APPEND(m, e, ln); }
	ISC_LIST_APPENDLIST(l, m, ln);
	if (!ISC_LIST_EMPTY(m)) BAD("the appended list is not empty");
	i = 0; for (struct node *x = ISC_LIST_HEAD(l); x != NULL; x = ISC_LIST_NEXT(x, ln)) i++;
	if (i != N) BAD("%zu elements are inside", i);
	for (i = 0; i < N; i++) { struct node *e = ISC_LIST_HEAD(l); if (e == NULL || (rem % 2 ? (e = ISC_LIST_TAIL(l)) : e) == NULL) BAD("empty after %zu", i); ISC_LIST_UNLINK_TYPE(l, e, ln, struct node); }
	if (!ISC_LIST_EMPTY(l)) BAD("not empty in the end");
out:	free(n); return r;
}
