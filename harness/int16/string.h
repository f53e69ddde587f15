#pragma once
#include <stddef.h>
void *v16_memset(void *d, int c, unsigned n);
void *v16_memcpy(void *d, const void *s, unsigned n);
void *v16_memmove(void *d, const void *s, unsigned n);
int v16_memcmp(const void *a, const void *b, unsigned n);
#define memset v16_memset
#define memcpy v16_memcpy
#define memmove v16_memmove
#define memcmp v16_memcmp
