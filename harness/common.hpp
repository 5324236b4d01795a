#pragma once
#include "sym.hpp"
#include "textwolf.hpp"
#include <string>
#include <vector>
#include <cstring>
typedef unsigned int u32; typedef unsigned long long u64;
typedef unsigned char uchar;

// back insertion sequence that records the bytes written (independent of the library buffers)
template <unsigned N>
struct Out
{
	char b[N]; unsigned n; bool full;
	Out() :n(0),full(false) {}
	void push_back( char c) { if (n < N) b[n++] = c; else full = true; }
	void append( const char* p, std::size_t k) { for (std::size_t i=0; i<k; i++) push_back( p[i]); }
	void clear() { n = 0; full = false; }
	std::size_t size() const { return n; }
	void resize( std::size_t k, char c=0) { while (n < k && n < N) b[n++] = c; n = (unsigned)k; }
	char operator[]( std::size_t i) const { return b[i]; }
};
template <unsigned N> static bool same( const Out<N>& o, const char* p, unsigned n) { return o.n == n && sym_memeq( o.b, p, n); }

static inline u32 symU32() { u32 r; sym_bytes( &r, 4); return r; }

// reference: "&#x<lower case hex>;"
static unsigned refHex( u32 ch, char* o)
{
	unsigned nd = 0; u32 t = ch;
	if (ch >= 0x10000000u) nd = 8; else if (ch >= 0x1000000u) nd = 7; else if (ch >= 0x100000u) nd = 6; else if (ch >= 0x10000u) nd = 5; else if (ch >= 0x1000u) nd = 4; else if (ch >= 0x100u) nd = 3; else if (ch >= 0x10u) nd = 2; else if (ch >= 1u) nd = 1;
	(void)t; unsigned k = 0; o[k++] = '&'; o[k++] = '#'; o[k++] = 'x';
	for (unsigned i = nd; i-- > 0;) { u32 d = (ch >> (4*i)) & 15; o[k++] = (char)(d < 10 ? '0' + d : 'a' + (d - 10)); }
	o[k++] = ';'; return k;
}
// lengths around powers of two
#ifdef SPARSE
static const unsigned scaleLen[] = {16,64,128,255,256,257,1024,1025,4096,4097,8193,65536,65537};
#else
static const unsigned scaleLen[] = {15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,1023,1024,1025,4095,4096,4097,8191,8192,8193,65535,65536,65537};
#endif
static inline unsigned scaled( unsigned max) { unsigned n = 0; while (n < sizeof(scaleLen)/sizeof(*scaleLen) && scaleLen[n] <= max) ++n; return scaleLen[ sym_choose( n)]; }
// a template with a digit (class of the most repetitions) in front: '{...}' repeated len times
static unsigned most( char k) { return k == '2' ? 65 : k == '3' ? 257 : k == '4' ? 1025 : k == '5' ? 8193 : 65537; }
static std::string repeated( const char* p, unsigned len)
{
	std::string s; for (; *p; p++) if (*p == '{') { const char* e = p+1; while (*e != '}') ++e; for (unsigned k=0; k<len; k++) s.append( p+1, e-p-1); p = e; } else s.push_back( *p); return s;
}
// a block of n bytes, concrete but the ones at 0, n/2, n-1
static inline char* longBlock( unsigned n) { char* r = new char[ n ? n : 1]; for (unsigned i=0; i<n; i++) r[i] = (char)(1 + i*7 + i/256); if (n) { r[0] = (char)sym_byte(); r[n/2] = (char)sym_byte(); r[n-1] = (char)sym_byte(); } return r; }
#ifndef TIER
#define TIER 0
#endif
