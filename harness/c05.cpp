// C05: all views of the current character agree in any order of access.  ENC 0 utf8 1 utf16le 2 utf16be 3 ucs2le 4 ucs2be 5 ucs4le 6 ucs4be 7 isolatin
#include "common.hpp"
#include "iso.hpp"
using namespace textwolf;
#if ENC == 0
typedef charset::UTF8 CS; enum {N=6,NOPS=3};
#elif ENC == 1
typedef charset::UTF16LE CS; enum {N=6,NOPS=3};
#elif ENC == 2
typedef charset::UTF16BE CS; enum {N=6,NOPS=3};
#elif ENC == 3
typedef charset::UCS2LE CS; enum {N=4,NOPS=3};
#elif ENC == 4
typedef charset::UCS2BE CS; enum {N=4,NOPS=3};
#elif ENC == 5
typedef charset::UCS4LE CS; enum {N=8,NOPS=3};
#elif ENC == 6
typedef charset::UCS4BE CS; enum {N=8,NOPS=3};
#else
typedef charset::IsoLatin CS; enum {N=2,NOPS=3};
#endif
typedef TextScanner<CStringIterator,CS> TS;
struct RefClass
{	// control class of the ascii characters, written down independently
	uchar t[256];
	RefClass() { for (int i=0; i<256; i++) t[i] = i < 32 ? Cntrl : i < 128 ? Any : Undef; t[0] = EndOfText; t[9] = t[13] = t[32] = Space; t[10] = EndOfLine; t['&'] = Amp; t['<'] = Lt; t['='] = Equal; t['>'] = Gt; t['/'] = Slash; t['-'] = Dash; t['!'] = Exclam; t['?'] = Questm; t['\''] = Sq; t['"'] = Dq; t['['] = Osb; t[']'] = Csb; }
};
int main()
{
	static RefClass rc;
	char s[N+8]; sym_bytes( s, N); for (int i=N; i<N+8; i++) s[i] = 0;
#if ENC == 7
	unsigned page = sym_choose( 2) ? 7 : 2; CS cs( page+1);
#else
	CS cs;
#endif
	// reference: value and length of the first two characters with a fresh reader that only decodes
	TS r( cs, CStringIterator( s, N+8)); u32 v0 = *r; ++r; std::size_t p1 = r.getPosition(); u32 v1 = *r; ++r; std::size_t p2 = r.getPosition();
	if (TIER == 0) { sym_assume( p1 <= N); }
#if ENC == 0
	sym_assume( p1 <= N && p2 <= N+8); sym_assume( (p1 == 1 || v0 >= 128) && (p2 - p1 == 1 || v1 >= 128));	// over-long forms have no defined ascii view
#endif
	{	// the interface of the character set itself
		char b[16]; unsigned bp = 0; CStringIterator it( s, N+8); unsigned how = sym_choose( 4);
		if (how & 1) sym_assert( cs.asciichar( b, bp, it) == (v0 < 128 ? (int)v0 : -1), "ascii value or -1");
		if (how & 2) sym_assert( cs.value( b, bp, it) == v0, "value by the character set");
		if (how == 0) { cs.fetchbytes( b, bp, it); sym_assert( bp == p1 && sym_memeq( b, s, p1), "bytes of the character"); }
		cs.skip( b, bp, it); sym_assert( it.pos() == p1, "position behind the character"); bp = 0; sym_assert( cs.value( b, bp, it) == v1, "value behind"); if (how < 3) { sym_cover( "character set"); return 0; }
	}
	TS ts( cs, CStringIterator( s, N+8));
	for (int c=0; c<2; c++)
	{
		u32 v = c ? v1 : v0; std::size_t a = c ? p1 : 0, e = c ? p2 : p1;
		for (int k=0; k<(c ? 1 : NOPS); k++)
		{
			sym_assert( ts.getPosition() == a, "position while looking at the character");
			switch (sym_choose( c ? 4 : 6)) {
			case 0: sym_assert( *ts == v, "value"); break;
			case 1: sym_assert( ts.ascii() == (v < 128 ? v : 0), "ascii value"); break;
			case 2: { int cl = ts.control(); sym_assert( v == 5 || cl == rc.t[ v < 128 ? v : 255], "class"); } sym_cover("class"); break;
			case 3: { Out<16> o; CS out( cs); ts.copychar( out, o); sym_assert( o.n == e - a, "raw copy length"); sym_assert( sym_memeq( o.b, s+a, e-a), "raw copy"); sym_cover("copy"); } break;
			case 4: { TS cp( ts); sym_assert( cp.getPosition() == a, "position of the copy"); sym_assert( *cp == v, "value of the copy"); ++cp; sym_assert( cp.getPosition() == e && *cp == v1, "rest of the copy"); sym_cover("copied"); } break;
			case 5: { TS cp( ts++); sym_assert( *cp == v, "value of post increment"); sym_assert( ts.getPosition() == e && *ts == v1, "post increment"); ts = TS( cp); } break;
			}
		}
		sym_assert( ts.getPosition() == a, "position before advancing"); ++ts; sym_assert( ts.getPosition() == e, "position after advancing");
	}
	return 0;
}
