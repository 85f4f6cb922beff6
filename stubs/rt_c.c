/* C library functions, executed by the engine on symbolic data. */
typedef __SIZE_TYPE__ size_t;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return ((void*)0); }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = n; i-- > 0;) if (s[i] == (unsigned char)c) return (void*)(s + i); return ((void*)0); }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return ((void*)0); } }
char* strrchr(const char* s, int c) { const char* r = ((void*)0); for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; ++h) { if (strncmp(h, n, k) == 0) return (char*)h; if (!*h) return ((void*)0); } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
int atoi(const char* s) { int v = 0; int n = *s == '-'; if (n) ++s; while (isdigit(*s)) v = v * 10 + (*s++ - '0'); return n ? -v : v; }
char __libc_single_threaded = 0;
