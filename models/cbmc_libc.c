/* libc functions CBMC's own library has no body for (used by the code under test or plausible in an edit of it) */
#ifdef VF_CBMC
#include <stddef.h>
size_t strcspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) for (size_t j = 0; r[j]; j++) if (s[i] == r[j]) return i; return i; }
size_t strspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) { size_t j = 0; for (; r[j]; j++) if (s[i] == r[j]) break; if (!r[j]) return i; } return i; }
char *strpbrk(const char *s, const char *r) { for (; *s; s++) for (size_t j = 0; r[j]; j++) if (*s == r[j]) return (char *)s; return NULL; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return NULL; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
void *mempcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return (char *)d + n; }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return NULL; } }
unsigned short htons(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned short ntohs(unsigned short x) { return (unsigned short)(x << 8 | x >> 8); }
unsigned htonl(unsigned x) { return x << 24 | (x & 0xff00) << 8 | (x >> 8 & 0xff00) | x >> 24; }
unsigned ntohl(unsigned x) { return htonl(x); }
#endif
