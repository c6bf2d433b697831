/* header-only helpers of libmy behind plain functions */
#include <stdbool.h>
#include "hex_decode.h"
#include "string_replace.h"
bool s_hex_decode(const char *hex, uint8_t **raw, size_t *len) { return hex_decode(hex, raw, len); }
char *s_string_replace(const char *a, const char *b, const char *c) { return string_replace(a, b, c); }
