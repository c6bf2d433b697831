/* examples/wdns-dump-file as a function */
#pragma clang section bss="ex_bss" data="ex_data"
#define main ex_file_main
#include "examples/wdns-dump-file.c"
