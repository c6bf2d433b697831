/* examples/wdns-dump-pcap as a function */
#pragma clang section bss="ex_bss" data="ex_data"
#define main ex_pcap_main
#include "examples/wdns-dump-pcap.c"
