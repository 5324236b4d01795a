// C01: UTF-8 encode / decode
#include "common.hpp"
using namespace textwolf;
#ifndef PART
#define PART 0
#endif
typedef TextScanner<CStringIterator,charset::UTF8> TS;

static unsigned refEnc( u32 c, char* o)
{	// shortest form, independent of the implementation
	if (c < 0x80) { o[0] = (char)c; return 1; }
	unsigned n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
	static const uchar lead[7] = {0,0,0xC0,0xE0,0xF0,0xF8,0xFC};
	for (unsigned i = n; i-- > 1;) { o[i] = (char)(0x80 | (c & 0x3F)); c >>= 6; }
	o[0] = (char)(lead[n] | c); return n;
}
int main()
{
#if PART == 0
	u32 ch = symU32(); sym_assume( ch < 0x80000000u);
	Out<16> o; charset::UTF8 cs; cs.print( ch, o);
	char ref[16]; unsigned n = refEnc( ch, ref);
	sym_assert( o.n == n, "shortest length");
	sym_assert( same( o, ref, n), "encoded bytes");
	if (n == 1) sym_cover("1 byte"); if (n == 2) sym_cover("2 bytes"); if (n == 3) sym_cover("3 bytes"); if (n == 4) sym_cover("4 bytes"); if (n == 5) sym_cover("5 bytes"); if (n == 6) sym_cover("6 bytes");
	// decode, another character behind
	char src[20]; memcpy( src, o.b, o.n); src[o.n] = 'Q'; src[o.n+1] = 'R';
	TS ts( CStringIterator( src, o.n+2));
	unsigned mode = sym_choose( 4);
	if (mode & 1) sym_assert( ts.ascii() == (ch < 0x80 ? ch : 0), "ascii value");
	if (mode < 2) sym_assert( *ts == ch, "decoded value");
	if (mode == 3) { ts.control(); }
	++ts;
	sym_assert( ts.getPosition() == n, "consumed exactly the bytes of the character");
	sym_assert( *ts == 'Q', "next character");
#elif PART == 1
	// arbitrary bytes
	char s[12]; sym_bytes( s, 8); s[8] = 'Q'; s[9] = 'R'; s[10] = 'S'; s[11] = 0;
	uchar l = s[0]; sym_assume( l != 0);
	unsigned n = l < 0xC0 ? 1 : l < 0xE0 ? 2 : l < 0xF0 ? 3 : l < 0xF8 ? 4 : l < 0xFC ? 5 : l < 0xFE ? 6 : l == 0xFE ? 7 : 8;
	TS ts( CStringIterator( s, 11)); 
	unsigned mode = sym_choose( 3);
	if (mode == 1) { ts.ascii(); } else if (mode == 2) { ts.control(); }
	if (mode != 2) {
		u32 v = *ts;
		if (n == 1) { sym_assert( v == (l < 0x80 ? (u32)l : 0x7FFFFFFFu), "single byte"); sym_cover("single"); }
		else {
			bool ok = true; u32 ref = n >= 7 ? 0 : l & (0x7F >> n); for (unsigned i=1; i<n; i++) { ok &= ((uchar)s[i] & 0xC0) == 0x80; ref = (ref << 6) | ((uchar)s[i] & 0x3F); }
			if (!sym_decide( ok)) { sym_assert( v == 0x7FFFFFFFu, "broken sequence is replaced"); sym_cover("broken"); }
			else if (n < 7) { sym_assert( v == ref, "value of a well formed sequence"); sym_cover("well formed"); }
			if (n == 6) sym_cover("six"); if (n == 8) sym_cover("eight");
		}
	}
	++ts;
	sym_assert( ts.getPosition() == n, "bytes consumed depend on the lead byte only");
	u32 nx = *ts; (void)nx;
	if (n >= 8) sym_assert( nx == 'Q', "next");
#else
	// k characters in a row: the decoder synchronises on every character
	enum {K=TIER?3:2}; u32 ch[K]; Out<32> o; charset::UTF8 cs; unsigned ofs[K+1]; ofs[0] = 0;
	for (int i=0; i<K; i++) { ch[i] = symU32(); sym_assume( ch[i] < 0x80000000u); cs.print( ch[i], o); ofs[i+1] = o.n; }
	TS ts( CStringIterator( o.b, o.n)); unsigned how = sym_choose( 1 << K);
	for (int i=0; i<K; i++) { sym_assert( ts.getPosition() == ofs[i], "position"); if ((how >> i) & 1) { sym_assert( *ts == ch[i], "value"); } else ts.ascii(); sym_assert( ts.getPosition() == ofs[i], "position after access"); ++ts; }
	sym_assert( *ts == 0, "end"); sym_cover("end");
#endif
	return 0;
}
