// I01: stream iterator: symbolic content, every split into partial reads, read errors
#if PART == 3
#include <iostream>
#include <fstream>
#include <iterator>
#include <cstdlib>
#include <cerrno>
#include <cstring>
#include <stdexcept>
#include <stdint.h>
#include "sym.hpp"
namespace std {
/// model of std::istream (state bits, exception mask, sentry and read as in the standard) on symbolic content with a symbolic failure
struct symistream
{
	typedef ios_base::iostate iostate;
	struct failure { int dummy; }; struct Other { int dummy; };
	const char* c; unsigned n, pos, errat, mode; int eno; iostate st, exc; streamsize gc; bool failed;
	void throwif() { if (st & exc) { failure f; f.dummy = 0; throw f; } }
	void unsetf( ios_base::fmtflags) {}
	void exceptions( iostate e) { exc = e; throwif(); }
	bool good() const { return st == 0; } bool eof() const { return st & ios_base::eofbit; } bool bad() const { return st & ios_base::badbit; } bool fail() const { return st & (ios_base::badbit|ios_base::failbit); }
	iostate rdstate() const { return st; } void clear( iostate s=ios_base::goodbit) { st = s; throwif(); } void setstate( iostate s) { clear( st | s); }
	streamsize gcount() const { return gc; }
	symistream& read( char* b, streamsize k)
	{
		gc = 0;
		if (!good()) { if (!eof()) failed = true; setstate( ios_base::failbit); return *this; }
		if (pos + k > errat)
		{	// the stream buffer fails
			failed = true; errno = eno;
			if (mode == 0) { st |= ios_base::badbit; if (exc & ios_base::badbit) { failure f; f.dummy = 0; throw f; } }	// ... with the error of a file buffer
			else if (mode == 1) { st |= ios_base::badbit; if (exc & ios_base::badbit) { Other o; o.dummy = 0; throw o; } }	// ... with an exception of its own
			else { gc = errat - pos; memcpy( b, c + pos, gc); pos = errat; setstate( ios_base::badbit); }	// ... after some bytes
			return *this;
		}
		unsigned m = n - pos; if ((streamsize)m > k) m = (unsigned)k;
		memcpy( b, c + pos, m); pos += m; gc = m;
		if ((streamsize)m < k) setstate( ios_base::eofbit | ios_base::failbit);
		return *this;
	}
};
}
#define istream symistream
#include "textwolf/istreamiterator.hpp"
#undef istream
#endif
#include "common.hpp"
#include "textwolf/istreamiterator.hpp"
using namespace textwolf;
#ifndef MAXN
#define MAXN 5
#endif
struct Src :public IStream
{
	const char* c; unsigned n, pos, errat, nread; int err; bool bad;
	Src( const char* c_, unsigned n_, unsigned errat_) :c(c_),n(n_),pos(0),errat(errat_),nread(0),err(0),bad(false),most(0) {}
	unsigned most;
	virtual std::size_t read( void* buf, std::size_t bufsize)
	{
		if (nread++ == errat) { err = 5; return 0; }
		unsigned k = n - pos; if (k > bufsize) k = bufsize;
		if (most) { if (k > most) k = most; } else if (k > 1) k = 1 + sym_choose( k);
		memcpy( buf, c + pos, k); pos += k; return k;
	}
	virtual int errorcode() const { return err; }
};
static bool err( const exception& e) { return e.cause == throws_exception::FileReadError; }
int main()
{
	long live = sym_heap_live();
#if PART == 4
	{	// long streams: three symbolic bytes, buffers and reads of sizes around powers of two; a copy in the middle, or a read error
		unsigned n = scaled( LONG); char* s = longBlock( n); static const unsigned bss[] = {1,255,256,257,4096,8192,0,65536,100000}, ms[] = {1,100,255,256,4095,100000};
		unsigned bs = bss[ sym_choose( 9)], most = ms[ sym_choose( 6)], how = sym_choose( 4); Src src( s, n, how == 3 ? n/(bs && bs < most ? bs : most)/2+1 : ~0u); src.most = most; unsigned at[] = {1,n/3,n-1}; unsigned cp = how < 3 ? at[how] : ~0u; bool thrown = false; volatile unsigned i = 0;
		try
		{
			IStreamIterator* it = bs ? new IStreamIterator( &src, bs) : new IStreamIterator( &src);
			try
			{
				for (i=0; i<n+2; i++)
				{
					if (i == cp) { IStreamIterator* c = new IStreamIterator( *it); delete it; it = c; sym_cover("copy"); }
					if ((std::size_t)it->position() != i) sym_fail("position is the byte offset");
					char b = **it; if (i == 0 || i == n/2 || i+1 == n) sym_assert( b == s[i], "byte"); else if (b != (i < n ? s[i] : 0)) sym_fail("byte");
					++*it;
				}
			} catch (const exception& e) { thrown = true; sym_assert( err( e), "cause of the exception"); sym_cover("read error"); }
			delete it;
		} catch (const exception& e) { thrown = true; sym_assert( err( e), "cause of the exception"); }
		sym_assert( thrown == (src.err != 0), "a read error is reported and the end of the stream is none"); if (!thrown) sym_cover("end"); delete [] s;
	}
	sym_assert( sym_heap_live() == live, "memory released");
	return 0;
#else
	char s[MAXN+1]; unsigned n = sym_choose( MAXN+1); sym_bytes( s, n);
	unsigned bs = 1 + sym_choose( 4); 
#if PART == 0
	{
		Src src( s, n, ~0u); IStreamIterator* it = new IStreamIterator( &src, bs); unsigned cp = sym_choose( n+1), how = sym_choose( 3);
		for (unsigned i=0; i<n+3; i++)
		{
			if (i == cp)
			{	// the copy has its own read position and data, the origin may go away
				IStreamIterator* c; if (how == 0) c = new IStreamIterator( *it); else { c = new IStreamIterator(); if (how == 2) { delete c; c = new IStreamIterator( *it); } *c = *it; *c = *c; }
				unsigned in = 0; (void)in; char cur = *(*it); std::size_t p = (std::size_t)it->position();
				if (i + 1 < src.pos) { ++*it; sym_assert( **it == s[i+1], "origin advanced"); sym_assert( *c - *it == -1 && *it - *c == 1, "distance"); sym_cover("copy with data"); }
				sym_assert( **c == cur && (std::size_t)c->position() == p, "copy is not disturbed by its origin"); 
				delete it; it = c; sym_cover("copy");
			}
			sym_assert( (std::size_t)it->position() == i, "position is the byte offset");
			sym_assert( **it == (i < n ? s[i] : 0), "byte"); sym_assert( **it == (i < n ? s[i] : 0), "byte read again");
			++*it;
		}
		delete it; sym_cover("end");
	}
	sym_assert( sym_heap_live() == live, "memory released");
#elif PART == 1
	{	// read error in the k-th read
		unsigned k = sym_choose( n+1); Src src( s, n, k); unsigned i = 0; bool thrown = false;
		try { IStreamIterator it( &src, bs); for (; i<n+2; i++) { sym_assert( *it == (i < n ? s[i] : 0), "byte before the error"); ++it; } } catch (const exception& e) { thrown = true; sym_assert( err( e), "cause of the exception"); sym_cover("read error"); }
		sym_assert( thrown == (src.err != 0), "a read error is reported and the end of the stream is none");
		if (!thrown) sym_cover("no error");
	}
	sym_assert( sym_heap_live() == live, "memory released");
#elif PART == 3
	{	// standard input stream: any content, failing at any position in three ways with any error code (also none)
		std::symistream in; in.c = s; in.n = n; in.pos = 0; in.errat = sym_choose( 2) ? sym_choose( n+1) : ~0u; in.mode = in.errat == ~0u ? 0 : sym_choose( 3); in.eno = sym_choose( 2) ? 5 : 0; in.st = std::ios_base::goodbit; in.exc = std::ios_base::goodbit; in.gc = 0; in.failed = false;
		if (in.errat == n) sym_assume( in.mode != 2);
		errno = sym_choose( 2) ? 2 : 0;		// left over by something else
		StdInputStream src( in); unsigned i = 0; bool thrown = false;
		try { IStreamIterator it( &src, bs); for (; i<n+2; i++) { sym_assert( (std::size_t)it.position() == i, "position"); if (*it == 0 && in.errat != ~0u && i < n) sym_assert( s[i] == 0, "no end of the stream before the error"); sym_assert( *it == (i < n ? s[i] : 0), "byte"); ++it; } } catch (const exception& e) { thrown = true; sym_assert( err( e), "cause of the exception"); sym_cover("read error"); }
		sym_assert( thrown == in.failed, "a read error is reported and the end of the stream is none");
		if (!thrown) sym_cover("no error");
	}
	sym_assert( sym_heap_live() == live, "memory released");
#else
	{	// through the text scanner
		Src src( s, n, ~0u); TextScanner<IStreamIterator,charset::UTF8> ts( charset::UTF8(), IStreamIterator( &src, bs));
		for (unsigned i=0; i<n; i++) { sym_assume( (uchar)s[i] < 0x80 && s[i] != 0); }
		for (unsigned i=0; i<n+2; i++) { sym_assert( ts.getPosition() == i, "reader position"); sym_assert( ts.ascii() == (uchar)(i < n ? s[i] : 0), "reader value"); sym_assert( ts.getPosition() == i, "reader position after access"); ++ts; } sym_cover("reader");
	}
	sym_assert( sym_heap_live() == live, "memory released");
#endif
	return 0;
#endif
}
