// I02: string and chunk iterators
#include "common.hpp"
using namespace textwolf;
#ifndef MAXN
#define MAXN 4
#endif
int main()
{
#if PART >= 2
	{
		unsigned n = scaled( LONG); char* s = longBlock( n); bool lit = sym_choose( 2) != 0;
#if PART == 2
		CStringIterator it; if (lit) { char* z = new char[ n+1]; std::memcpy( z, s, n); z[n] = 0; sym_assume( s[0] != 0 && s[n/2] != 0 && s[n-1] != 0); for (unsigned i=0; i<n; i++) if (i && i != n/2 && i != n-1 && !s[i]) { s[i] = z[i] = 'z'; } it = CStringIterator( z); } else it = CStringIterator( s, n);
		CStringIterator st( it);
		for (unsigned i=0; i<n+2; i++) { if (it.pos() != i) sym_fail("position"); char b = *it; if (i == 0 || i == n/2 || i+1 == n) sym_assert( b == s[i], "byte"); else if (b != (i < n ? s[i] : 0)) sym_fail("byte"); if (it - st != (int)i) sym_fail("difference"); if (i == n/3) { CStringIterator c( it); it = c; } ++it; }
		unsigned p = scaled( LONG); it.pos( p); sym_assert( it.pos() == (p < n ? p : n), "position set"); sym_assert( *it == (p < n ? s[p] : 0), "byte at the position set"); sym_cover("long string");
#else
		// a sequence of chunks of one size
		static const unsigned cs[] = {1,15,255,256,257,1024,100000}; unsigned ck = cs[ sym_choose( 7)]; jmp_buf eom; SrcIterator* volatile it = new SrcIterator(); volatile unsigned i = 0, at = 0, signals = 0; char* volatile mem = 0;
		unsigned first = ck < n ? ck : n; mem = new char[ first]; std::memcpy( mem, s, first); it->putInput( mem, first, first < n || lit ? &eom : 0); at = first;
		if (setjmp( eom) != 0) { signals++; sym_assert( i == at, "signal exactly at the end of the chunk"); if (at == n) { sym_assert( lit, "no signal at the end of the last chunk"); sym_cover("signal at the end"); sym_done(); } unsigned k = ck < n - at ? ck : n - at; delete [] mem; mem = new char[ k]; std::memcpy( mem, s + at, k); at += k; it->putInput( mem, k, at < n || lit ? &eom : 0); sym_assert( it->getPosition() == 0 && !it->endOfChunk(), "start of a chunk"); }
		for (; i<n+2; i++) { if ((std::size_t)it->position() != i) sym_fail("position continues in the next chunk"); char b = **it; if (i == 0 || i == n/2 || i+1 == n) sym_assert( b == s[i], "byte"); else if (b != (i < n ? s[i] : 0)) sym_fail("byte"); if (i == n/3) { SrcIterator* c = new SrcIterator( *it); delete it; it = c; } ++*it; }
		sym_assert( signals == (n-1)/ck, "one signal per chunk"); sym_cover("end"); delete it; delete [] mem;
#endif
	}
	return 0;
#else
	unsigned n = sym_choose( MAXN+1); char* s = new char[n ? n : 1]; sym_bytes( s, n);	// exact size heap block: reads behind it are violations
#if PART == 0
	std::string str; char* z = 0; unsigned how = sym_choose( 3); CStringIterator it;
	sym_assert( *it == 0 && it.pos() == 0, "empty iterator");
	if (how == 0) it = CStringIterator( s, n);
	else if (how == 1) { str.assign( s, n); it = CStringIterator( str); }
	else { z = new char[n+1]; memcpy( z, s, n); z[n] = 0; for (unsigned i=0; i<n; i++) sym_assume( s[i] != 0); it = CStringIterator( z); sym_cover("c string"); }
	CStringIterator st( it); unsigned a = sym_choose( n+1);
	for (unsigned i=0; i<n+2; i++)
	{
		sym_assert( it.pos() == i, "position"); sym_assert( *it == (i < n ? s[i] : 0), "byte");
		sym_assert( it - st == (int)i && st - it == -(int)i, "difference");
		if (i == a) { CStringIterator c( it); ++c; sym_assert( it.pos() == i, "copy is independent"); sym_assert( *c == (i+1 < n ? s[i+1] : 0), "copy advanced"); sym_cover("copy"); }
		++it;
	}
	u32 p = symU32(); it.pos( p); unsigned q = it.pos(); sym_assert( q == (p < n ? p : n), "position set"); q = (unsigned)sym_concrete( q); sym_assert( *it == (q < n ? s[q] : 0), "byte at the position set"); sym_cover("seek");
	if (z) delete[] z;
#elif PART == 1
	// chunk iterator without and with signal at the end of the chunk
	jmp_buf eom; volatile unsigned i = 0; volatile unsigned total = 0; bool sig = sym_choose( 2);
	unsigned m = sym_choose( 3); char* s2 = new char[m ? m : 1]; sym_bytes( s2, m);
	SrcIterator e0; sym_assert( *e0 == 0 && e0.endOfChunk() && (std::size_t)e0.position() == 0 && e0.getPosition() == 0, "empty iterator");
	SrcIterator it; bool viaput = sym_choose( 2); if (viaput) it.putInput( s, n, sig ? &eom : 0); else it = SrcIterator( s, n, sig ? &eom : 0);
	SrcIterator st( it); volatile int ended = 0;
	if (setjmp( eom) == 0) {
		for (; i<n+2; i++) {
			sym_assert( it.endOfChunk() == (i >= n), "end of chunk"); sym_assert( (std::size_t)it.position() == i, "position");
			if (i <= n) { sym_assert( it.getPosition() == i, "position in chunk"); sym_assert( it - st == i, "difference"); }
			char c = *it; sym_assert( !(sig && i >= n), "end of chunk is signalled");
			sym_assert( c == (i < n ? s[i] : 0), "byte"); SrcIterator k( it); ++it; if (i < n) sym_assert( *k == s[i], "copy");
			if (i > n) break;
		}
		sym_cover("end without signal");
	} else { ended = 1; sym_cover("signal"); sym_assert( sig && i == n, "signal exactly at the end of the chunk"); }
	if (ended) {	// next chunk: goes on there, positions continue
		it.putInput( s2, m, 0);
		for (unsigned k=0; k<m+1; k++) { sym_assert( (std::size_t)it.position() == n+k, "position continues in the next chunk"); sym_assert( it.getPosition() == k, "position in the next chunk"); sym_assert( *it == (k < m ? s2[k] : 0), "byte of the next chunk"); ++it; }
		sym_cover("next chunk");
		bool t = false; try { (void)(it - st); } catch (const exception& e) { t = e.cause == throws_exception::IllegalParam; } sym_assert( t || m == 0 || n == 0, "difference between chunks is refused");
	}
	delete[] s2;
#endif
	delete[] s;
	return 0;
#endif
}
