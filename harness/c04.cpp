// C04: ISO-8859 code pages (Latin alphabets 1..9). PART 0: byte -> character -> byte, 1: character -> bytes, 2: page index
#include "common.hpp"
#include "iso.hpp"
using namespace textwolf;
typedef TextScanner<CStringIterator,charset::IsoLatin> TS;
int main()
{
#if PART == 0
	unsigned page = sym_choose( 9); charset::IsoLatin cs( page+1); if (page == 8) sym_cover("page 9");
	char s[4]; s[0] = (char)sym_byte(); s[1] = 'Q'; s[2] = 'R'; s[3] = 0; uchar b = (uchar)s[0]; sym_assume( b != 0);
	TS ts( cs, CStringIterator( s, 3)); u32 v = *ts;
	if (b < 128) { sym_assert( v == b, "ascii byte decodes to itself"); }
	else {
		u32 ref = ISO[page][b & 127];
		if (sym_decide( ref == 0)) { sym_assert( v == 0xFFFD || v == b || v == 0, "unassigned byte is not an assigned character"); sym_cover("unassigned"); return 0; }
		sym_assert( v == ref, "decoded character"); sym_cover("assigned");
	}
	sym_assert( ts.ascii() == (b < 128 ? b : 0), "ascii value");
	++ts; sym_assert( ts.getPosition() == 1, "one byte consumed"); sym_assert( *ts == 'Q', "next");
	Out<40> o; cs.print( v, o); sym_assert( o.n == 1 && (uchar)o.b[0] == b, "encoded back to the same byte");
#elif PART == 1
	unsigned page = sym_choose( 9); charset::IsoLatin cs( page+1);
	u32 ch = symU32();
	Out<40> o; cs.print( ch, o);
	bool in = ch < 128; u32 byte = ch < 128 ? ch : 0;
	for (int i=0; i<128; i++) if (ISO[page][i]) { bool eq = ch == ISO[page][i]; in |= eq; byte |= (0u - (u32)eq) & (128u + i); }
	if (sym_decide( in)) { sym_assert( o.n == 1 && (uchar)o.b[0] == byte, "character of the page is encoded as its byte"); sym_cover("native"); }
	else { char h[32]; unsigned n = refHex( ch, h); sym_assert( o.n == n && same( o, h, n), "other character is encoded as hexadecimal reference"); sym_cover("reference"); }
#else
	u32 page = symU32(); sym_assume( page == 0 || page > 9); bool thrown = false;
	try { charset::IsoLatin cs( page); } catch (const textwolf::exception& e) { thrown = true; sym_assert( e.cause == textwolf::throws_exception::CodePageIndexNotSupported, "cause"); sym_cover("refused"); }
	sym_assert( thrown, "unknown page is refused");
	charset::IsoLatin a( 3), b( 3), c( 9), d( a); sym_assert( charset::IsoLatin::is_equal( a, b) && !charset::IsoLatin::is_equal( a, c) && charset::IsoLatin::is_equal( a, d), "equality of pages");
#endif
	return 0;
}
