/* examples/wdns-test-downcase-rrset as a function */
#pragma clang section bss="ex_bss" data="ex_data"
#include "examples/private.h"
#include <wdns.h>
#define main ex_down_main
#include "examples/wdns-hex-driver.c"
#include "examples/wdns-test-downcase-rrset.c"
