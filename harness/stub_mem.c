/* Byte-loop models of the C library's block operations (the solver's built-in
 * models use whole-array operations, which are imprecise for partly symbolic
 * sizes of non-char objects). Unwinding assertions bound the sizes. */
#include <stddef.h>
void *memset(void *s, int c, size_t n) { unsigned char *p = s; size_t i; for (i = 0; i < n; i++) p[i] = (unsigned char) c; return s; }
void *memcpy(void *d, const void *s, size_t n) { unsigned char *p = d; const unsigned char *q = s; size_t i; for (i = 0; i < n; i++) p[i] = q[i]; return d; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; size_t i; for (i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
