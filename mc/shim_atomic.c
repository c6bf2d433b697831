#include <stdbool.h>
#include <stdint.h>
#include "atomic.h"
#include "atomic_64.h"
#include "atomic_ptr.h"
static atomic_t v = ATOMIC_INIT(0); static atomic64_t w = ATOMIC64_INIT(0); static atomic_ptr_t p;
// operations: 0 add 1 sub 2 zero 3 sub_and_test 4 inc 5 dec 6 dec_and_test 7 inc_and_test 8 add_negative 9 read 10 set
int64_t s_atomic(int width, int op, int64_t i) {
	if (width == 32) switch (op) {
	case 0: atomic_add(i, &v); return 0;
	case 1: atomic_sub(i, &v); return 0;
	case 2: return atomic_zero(&v);
	case 3: return atomic_sub_and_test(i, &v);
	case 4: atomic_inc(&v); return 0;
	case 5: atomic_dec(&v); return 0;
	case 6: return atomic_dec_and_test(&v);
	case 7: return atomic_inc_and_test(&v);
	case 8: return atomic_add_negative(i, &v);
	case 9: return atomic_read(&v);
	case 10: atomic_set(&v, i); return 0;
	}
	switch (op) {
	case 0: atomic64_add(i, &w); return 0;
	case 1: atomic64_sub(i, &w); return 0;
	case 2: return atomic64_zero(&w);
	case 3: return atomic64_sub_and_test(i, &w);
	case 4: atomic64_inc(&w); return 0;
	case 5: atomic64_dec(&w); return 0;
	case 6: return atomic64_dec_and_test(&w);
	case 7: return atomic64_inc_and_test(&w);
	case 8: return atomic64_add_negative(i, &w);
	case 9: return atomic64_read(&w);
	case 10: atomic64_set(&w, i); return 0;
	}
	return 0;
}
void *s_ptr_get(void) { return atomic_ptr_get(&p); }
bool s_ptr_set(void *x) { return atomic_ptr_set(&p, x); }
