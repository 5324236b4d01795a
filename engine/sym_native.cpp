// Native replay of one path: values of symbolic bytes and choices come from the file named by SYM_INPUT
// (line 1: bytes in decimal, line 2: choices). A violated assertion prints its label and exits with 42.
#include "sym.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unistd.h>
#include <signal.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SYM_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define SYM_ASAN 1
#endif
#ifdef SYM_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
static std::vector<int> B, Cc; static size_t bi, ci; static bool loaded;
static void load() {
	if (loaded) return; loaded = true; const char* f = getenv("SYM_INPUT"); FILE* h = f ? fopen(f, "r") : 0; if (!h) { fprintf(stderr, "SYM_INPUT?\n"); _exit(3); }
	static char ln[65536]; for (int k = 0; k < 2; k++) { if (!fgets(ln, sizeof ln, h)) break; char* p = ln; for (;;) { char* e; long v = strtol(p, &e, 10); if (e == p) break; (k ? Cc : B).push_back((int)v); p = e; } } fclose(h);
	B.reserve(256); }
struct Init { Init() { load(); if (getenv("SYM_ALARM")) alarm(atoi(getenv("SYM_ALARM"))); } }; static Init init_;
extern "C" {
unsigned char sym_byte() { return bi < B.size() ? B[bi++] : 'a'; }
void sym_bytes(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = sym_byte(); }
unsigned sym_choose(unsigned n) { unsigned c = ci < Cc.size() ? Cc[ci++] : 0; return c < n ? c : n - 1; }
void sym_assume(int c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(0); _exit(0); } }
void sym_assert(int c, const char* l) { if (!c) { printf("ASSERT-FAILED: %s\n", l); fflush(0); _exit(42); } }
void sym_fail(const char* l) { printf("ASSERT-FAILED: %s\n", l); fflush(0); _exit(42); }
void sym_cover(const char* n) { if (getenv("SYM_TRACE")) printf("COVER %s\n", n); }
int sym_decide(int c) { return c != 0; }
unsigned long sym_concrete(unsigned long v) { return v; }
int sym_memeq(const void* a, const void* b, size_t n) { return !memcmp(a, b, n); }
long sym_heap_live() {
#ifdef SYM_ASAN
	return (long)__sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}
void sym_done() { fflush(0); _exit(0); }
}
