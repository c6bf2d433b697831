/* examples/wdns-test-print-message as a function */
#pragma clang section bss="ex_bss" data="ex_data"
#include "examples/private.h"
#include <wdns.h>
#define main ex_print_main
#include "examples/wdns-hex-driver.c"
#include "examples/wdns-test-print-message.c"
