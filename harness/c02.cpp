// C02: UTF-16, C03: UCS-2 / UCS-4.  ENC: 0 UTF16LE 1 UTF16BE 2 UCS2LE 3 UCS2BE 4 UCS4LE 5 UCS4BE
#include "common.hpp"
using namespace textwolf;
#if ENC == 0
typedef charset::UTF16LE CS; enum {U=2,BE=0};
#elif ENC == 1
typedef charset::UTF16BE CS; enum {U=2,BE=1};
#elif ENC == 2
typedef charset::UCS2LE CS; enum {U=2,BE=0};
#elif ENC == 3
typedef charset::UCS2BE CS; enum {U=2,BE=1};
#elif ENC == 4
typedef charset::UCS4LE CS; enum {U=4,BE=0};
#else
typedef charset::UCS4BE CS; enum {U=4,BE=1};
#endif
typedef TextScanner<CStringIterator,CS> TS;
static unsigned unit( u32 v, char* o) { for (int i=0; i<U; i++) { unsigned sh = BE ? 8*(U-1-i) : 8*i; o[i] = (char)(uchar)((v >> sh) & 0xFF); } return U; }
int main()
{
#if PART == 0
	u32 ch = symU32();
	Out<64> o; CS cs; cs.print( ch, o); char ref[64]; unsigned n = 0; bool native = true;
	#if ENC < 2
	if (ch < 0x10000) { if (ch >= 0xD800 && ch < 0xDC00) native = false; else n = unit( ch, ref); }
	else if (ch <= 0x10FFFF) { u32 c = ch - 0x10000; n = unit( 0xD800 + (c >> 10), ref); n += unit( 0xDC00 + (c & 0x3FF), ref+n); sym_cover("pair"); }
	else native = false;
	#elif ENC < 4
	if (ch < 0x10000) n = unit( ch, ref); else native = false;
	#else
	n = unit( ch, ref);
	#endif
	if (!native) { char h[32]; unsigned k = refHex( ch, h); for (unsigned i=0; i<k; i++) n += unit( (uchar)h[i], ref+n); sym_cover("reference"); }
	sym_assert( o.n == n, "encoded length");
	sym_assert( same( o, ref, n), "encoded bytes");
	if (native) {
		char src[40]; memcpy( src, o.b, o.n); n += unit( 'Q', src+o.n); 
		TS ts( CStringIterator( src, n)); unsigned mode = sym_choose( 4);
		if (mode & 1) sym_assert( ts.ascii() == (ch < 128 ? ch : 0), "ascii value");
		if (mode == 2) ts.control();
		bool loneLow = ENC < 2 && ch >= 0xDC00 && ch < 0xE000;	// not a scalar value
		if (mode < 3 && !loneLow) { sym_assert( *ts == ch, "decoded value"); sym_cover("decoded"); }
		++ts; sym_assert( ts.getPosition() == o.n, "consumed exactly the bytes of the character"); sym_assert( *ts == 'Q', "next character");
	}
#else
	// decoding of arbitrary bytes
	char s[12]; sym_bytes( s, 4); unsigned k = 4; k += unit( 'Q', s+k); k += unit( 'R', s+k); 
	u32 a = 0, b = 0;
	for (int i=0; i<U; i++) { a |= (u32)(uchar)s[BE?i:U-1-i] << (8*(U-1-i)); if (U == 2) b |= (u32)(uchar)s[2+(BE?i:1-i)] << (8*(1-i)); }
	sym_assume( a != 0);
	TS ts( CStringIterator( s, k)); unsigned mode = sym_choose( 3); if (mode == 1) ts.ascii(); if (mode == 2) ts.control();
	unsigned n = U; 
	#if ENC < 2
	if (a >= 0xD800 && a < 0xDC00) {
		n = 4; if (b >= 0xDC00 && b < 0xE000) { sym_assert( *ts == 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00), "surrogate pair"); sym_cover("pair"); } else { sym_assert( *ts == 0xFFFF, "broken surrogate pair is replaced"); sym_cover("broken"); }
	} else
	#endif
	{ sym_assert( *ts == a, "unit value"); sym_cover("unit"); }
	++ts; sym_assert( ts.getPosition() == n, "consumed");
	if (n == 4 || U == 4) sym_assert( *ts == 'Q', "next");
	++ts; ++ts; 
#endif
	return 0;
}
