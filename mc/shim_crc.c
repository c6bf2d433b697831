/* a second copy of the dispatcher on a machine without SSE 4.2 */
#define my_crc32c my_crc32c_nosse
#define my_crc32c_sse42_supported fake_unsupported
#include <stdbool.h>
bool fake_unsupported(void) { return false; }
#include "crc32c.c"
#undef my_crc32c
extern uint32_t (*my_crc32c)(const uint8_t *, size_t);
/* runs before the dispatcher's own constructor */
uint32_t early[4];
__attribute__((constructor(101))) static void first_use(void)
{
	early[0] = my_crc32c((const uint8_t *)"123456789", 9); early[1] = my_crc32c((const uint8_t *)"", 0);
	early[2] = my_crc32c_nosse((const uint8_t *)"123456789", 9); early[3] = my_crc32c_nosse((const uint8_t *)"a", 1);
}
