#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include "hex_decode.h"
#include "string_replace.h"
#include "print_string.h"
#include "read_bytes.h"
#include "getenv_int.h"
#include "my_byteorder.h"
bool s_hex_decode(const char *h, uint8_t **raw, size_t *len) { return hex_decode(h, raw, len); }
char *s_string_replace(const char *s, const char *o, const char *n) { return string_replace(s, o, n); }
void s_print_string(const void *d, size_t n, FILE *f) { print_string(d, n, f); }
bool s_getenv_int(const char *n, uint64_t *v) { return getenv_int(n, v); }
uint32_t s_bswap32(uint32_t x) { return my_bswap32(x); }
uint32_t s_htole32(uint32_t x) { return my_htole32(x); }
uint32_t s_le32toh(uint32_t x) { return my_le32toh(x); }
bool s_read_bytes(int fd, uint8_t *b, size_t n) { return read_bytes(fd, b, n); }
