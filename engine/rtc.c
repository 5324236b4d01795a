typedef unsigned long sz; typedef unsigned char uc;
static int errnoValue; int* __errno_location(void) { return &errnoValue; }
// C library functions without handler in handlers.hpp (written as loops: symbolic characters fork where they matter)
char* strcpy(char* d, const char* s) { sz i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) break; } return d; }
char* stpcpy(char* d, const char* s) { sz i = 0; for (;; i++) { d[i] = s[i]; if (!s[i]) break; } return d + i; }
char* strncpy(char* d, const char* s, sz n) { sz i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { sz k = 0; while (d[k]) k++; strcpy(d + k, s); return d; }
char* strncat(char* d, const char* s, sz n) { sz k = 0, i = 0; while (d[k]) k++; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
sz strnlen(const char* s, sz n) { sz i = 0; while (i < n && s[i]) i++; return i; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) break; } return (char*)r; }
void* memrchr(const void* p, int c, sz n) { const uc* s = (const uc*)p; while (n) if (s[--n] == (uc)c) return (void*)(s + n); return 0; }
void* rawmemchr(const void* p, int c) { const uc* s = (const uc*)p; while (*s != (uc)c) s++; return (void*)s; }
char* strstr(const char* h, const char* n) { for (;; h++) { sz i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
sz strspn(const char* s, const char* a) { sz i = 0; for (; s[i]; i++) { sz k = 0; while (a[k] && a[k] != s[i]) k++; if (!a[k]) break; } return i; }
sz strcspn(const char* s, const char* a) { sz i = 0; for (; s[i]; i++) { sz k = 0; while (a[k] && a[k] != s[i]) k++; if (a[k]) break; } return i; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
void* mempcpy(void* d, const void* s, sz n) { for (sz i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i]; return (char*)d + n; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); } int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); } int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); } int isblank(int c) { return c == ' ' || c == 9; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; } int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
static unsigned long strto(const char* s, char** e, int base, int neg_ok, unsigned long max, unsigned long minabs) {
	const char* p = s; while (isspace((uc)*p)) p++;
	int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((uc)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; int any = 0, ov = 0;
	for (;; p++) { unsigned d; uc c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if ((int)d >= base) break; any = 1; if (v > (~0UL - d) / base) ov = 1; else v = v * base + d; }
	if (e) *e = (char*)(any ? p : s);
	if (neg_ok) { if (neg) return ov || v > minabs ? (unsigned long)-minabs : (unsigned long)-v; return ov || v > max ? max : v; }
	return ov ? max : neg ? (unsigned long)-v : v;
}
long strtol(const char* s, char** e, int b) { return (long)strto(s, e, b, 1, 0x7fffffffffffffffUL, 0x8000000000000000UL); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return strto(s, e, b, 0, ~0UL, 0); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); } unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long atol(const char* s) { return strtol(s, 0, 10); } long long atoll(const char* s) { return strtol(s, 0, 10); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, sz n) { for (; n; n--, a++, b++) { int x = tolower((uc)*a), y = tolower((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int strcoll(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (uc)*a < (uc)*b ? -1 : 1; if (!*a) return 0; } }
void* memmem(const void* h, sz hn, const void* n, sz nn) { sz i, k; for (i = 0; i + nn <= hn; i++) { for (k = 0; k < nn && ((const uc*)h)[i + k] == ((const uc*)n)[k]; k++); if (k == nn) return (uc*)h + i; } return 0; }
void* memccpy(void* d, const void* s, int c, sz n) { for (sz i = 0; i < n; i++) { ((uc*)d)[i] = ((const uc*)s)[i]; if (((const uc*)s)[i] == (uc)c) return (uc*)d + i + 1; } return 0; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* malloc(sz); char* strdup(const char* s) { sz n = 0; while (s[n]) n++; char* r = (char*)malloc(n + 1); for (sz i = 0; i <= n; i++) r[i] = s[i]; return r; }
char* strndup(const char* s, sz k) { sz n = strnlen(s, k); char* r = (char*)malloc(n + 1); for (sz i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
