#pragma once
#include <stdint.h>
#include <stddef.h>
#define CONT_K 12
#ifdef __cplusplus
extern "C" {
#endif
struct vops {
	size_t esz;
	void *(*init)(unsigned); void *(*reinit)(unsigned); void (*destroy)(void **);
	void (*add)(void *, uint64_t); void (*append)(void *, uint64_t, size_t); void (*extend)(void *, void *);
	void (*reserve)(void *, size_t); void (*write)(void *, uint64_t, size_t); void (*advance)(void *, size_t);
	void (*clip)(void *, size_t); void (*reset)(void *); void *(*detach)(void *, size_t *);
	size_t (*size)(void *); size_t (*bytes)(void *); uint64_t (*value)(void *, size_t); void *(*data)(void *); void *(*ptr)(void *);
	uint64_t (*at)(void *, size_t);
};
extern const struct vops u8_ops, u32_ops, s12_ops, ptr_ops;
void *s_ubuf_new(void); void *s_ubuf_dup_cstr(const char *); void s_ubuf_add_cstr(void *, const char *); void s_ubuf_cterm(void *); char *s_ubuf_cstr(void *);
void s_ubuf_fmt_s(void *, const char *); void s_ubuf_fmt_d(void *, int, const char *); void s_ubuf_fmt_0(void *); void s_ubuf_rstrip(void *, char); void s_ubuf_lit(void *); void s_ubuf_pb(void *, const void *, size_t); void s_ubuf_append_cstr(void *, const char *, size_t);
void *arena(size_t *); void arena_init(void);
int rb_insert(int), rb_insert_twin(int), rb_remove(int), rb_find(int), rb_nfind(int), rb_min(void), rb_max(void), rb_next(int), rb_prev(int), rb_root(void), rb_empty(void), rb_left(int), rb_right(int), rb_parent(int), rb_red(int);
size_t rb_foreach(int *, size_t), rb_foreach_reverse(int *, size_t);
int sp_insert(int), sp_insert_twin(int), sp_remove(int), sp_find(int), sp_min(void), sp_max(void), sp_next(int), sp_root(void), sp_empty(void), sp_left(int), sp_right(int);
size_t sp_foreach(int *, size_t);
void l_append(int, int, int), l_prepend(int, int, int), l_before(int, int, int), l_after(int, int, int), l_unlink(int, int, int), l_appendlist(int, int), l_init(int);
int l_head(int), l_tail(int), l_empty(int), l_next(int), l_prev(int), l_linked(int);
const char *big_rb(size_t, int, int), *big_splay(size_t, int, int), *big_list(size_t, int, int);
#ifdef __cplusplus
}
#endif
