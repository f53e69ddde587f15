#include <string.h>
#include <stdint.h>
void *v16_memset(void *d, uint16_t c, uint16_t n) { return memset(d, c & 0xFF, n); }
void *v16_memcpy(void *d, const void *s, uint16_t n) { return memcpy(d, s, n); }
void *v16_memmove(void *d, const void *s, uint16_t n) { return memmove(d, s, n); }
int16_t v16_memcmp(const void *a, const void *b, uint16_t n) { return memcmp(a, b, n); }
