// interface between harness and engine
#pragma once
#include <cstddef>
extern "C" {
	unsigned char sym_byte();                            // a symbolic byte
	void sym_bytes(void* p, size_t n);
	unsigned sym_choose(unsigned n);                     // nondeterministic value 0..n-1, one path each
	void sym_assume(int c);
	void sym_assert(int c, const char* label);           // the property: decided by the solver for all values on the path
	void sym_fail(const char* label) __attribute__((noreturn));
	void sym_cover(const char* name);                    // reachability marker (vacuity check)
	int sym_decide(int c);                               // makes a condition concrete (splits the path)
	unsigned long sym_concrete(unsigned long v);         // makes a value concrete (splits the path)
	int sym_memeq(const void* a, const void* b, size_t n);
	long sym_heap_live();                                // bytes allocated and not released
	void sym_done() __attribute__((noreturn));
}
