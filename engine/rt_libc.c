// Bitcode runtime for symex: libc functions, written from the C standard.
#define WEAK __attribute__((weak, used, noinline))
typedef unsigned long size_t;
// ---- libc
WEAK size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
WEAK size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
WEAK int strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
WEAK int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
WEAK char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
WEAK char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
WEAK void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i); return 0; }
WEAK void *memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return 0; }
WEAK char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
WEAK char *strpbrk(const char *s, const char *a) { for (; *s; s++) for (const char *q = a; *q; q++) if (*s == *q) return (char *)s; return 0; }
WEAK size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
WEAK size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
WEAK int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5); }
WEAK int isdigit(int c) { return (unsigned)(c - '0') < 10; }
WEAK int isalpha(int c) { return ((unsigned)(c | 32) - 'a') < 26; }
WEAK int isalnum(int c) { return ((unsigned)(c - '0') < 10) | (((unsigned)(c | 32) - 'a') < 26); }
WEAK int isupper(int c) { return (unsigned)(c - 'A') < 26; }
WEAK int islower(int c) { return (unsigned)(c - 'a') < 26; }
WEAK int isprint(int c) { return (unsigned)(c - 32) < 95; }
WEAK int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
WEAK int isxdigit(int c) { return ((unsigned)(c - '0') < 10) | (((unsigned)(c | 32) - 'a') < 6); }
WEAK int tolower(int c) { return isupper(c) ? c + 32 : c; }
WEAK int toupper(int c) { return islower(c) ? c - 32 : c; }
static int vp_errno;
WEAK int *__errno_location(void) { return &vp_errno; }
WEAK long strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  int neg = 0;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  const char *d0 = p;
  unsigned long v = 0, lim = neg ? 1ul << 63 : (1ul << 63) - 1;
  int ov = 0;
  for (;; p++) {
    int c = (unsigned char)*p, x;
    if (isdigit(c)) x = c - '0'; else if (isalpha(c)) x = (c | 32) - 'a' + 10; else break;
    if (x >= base) break;
    if (v > (lim - x) / base) ov = 1; else v = v * base + x;
  }
  if (end) *end = (char *)(p == d0 ? s : p);
  if (ov) { vp_errno = 34; return neg ? (long)(1ul << 63) : (long)((1ul << 63) - 1); }
  return neg ? -(long)v : (long)v;
}
WEAK long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
WEAK long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
WEAK int atoi(const char *s) { return (int)strtol(s, 0, 10); }

// snprintf with at most two int arguments and the conversions %d and %u (anything else traps)
static char *vp_dec(char *p, char *e, int v) {
  char t[12]; int n = 0; unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v;
  do t[n++] = '0' + u % 10; while (u /= 10);
  if (v < 0) t[n++] = '-';
  while (n) { char c = t[--n]; if (p < e) *p = c; p++; }
  return p;
}
WEAK int snprintf(char *b, size_t n, const char *f, int a, int c) {
  char *p = b, *e = n ? b + n - 1 : b;
  for (; *f; f++) {
    if (*f != '%') { if (p < e) *p = *f; p++; continue; }
    if (*++f != 'd') __builtin_trap();
    p = vp_dec(p, e, a);
    a = c;
  }
  if (n) *(p < e ? p : e) = 0;
  return p - b;
}
