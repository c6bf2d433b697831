#include <endian.h>
#include "ip_arith.h"
void shim_ip4_lower(const void *a, unsigned l, void *o) { ip4_lower(a, l, o); }
void shim_ip4_upper(const void *a, unsigned l, void *o) { ip4_upper(a, l, o); }
void shim_ip4_incr(void *a) { ip4_incr(a); }
void shim_ip6_lower(const void *a, unsigned l, void *o) { ip6_lower(a, l, o); }
void shim_ip6_upper(const void *a, unsigned l, void *o) { ip6_upper(a, l, o); }
void shim_ip6_incr(void *a) { ip6_incr(a); }
