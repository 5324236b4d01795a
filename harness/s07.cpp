// S07: an element mask changes neither the sequence of elements nor the texts of the elements that are not masked out.
// IN/OUT encodings, SET templates, PERCALL 1: another mask for every call
#include "scan.hpp"
using namespace textwolf;
#ifndef PERCALL
#define PERCALL 0
#endif
static const char* const tmpl[] = {
#if SET == 0
	"<a>~~</a>x", "<a>\r~\n~</a>", "<a b='~~'/>~", "<a ~=\"~~\"/>x", "<a b=~c~>y", "<~a~>x</a~>", "<!--~~-->x", "<a>x<?p~?>y", "<?xml ~='1'~?>\n<a>", "<?xml a=~~?>x", "<?xml a='~'?><b>~", "<?xml?>~~", "<!D '~' ~>~x", "<!D ~z \"~\">", "<!D [~]~>\n<a>", "<a>x</~><b~>", "<a~/~>x", "</a~>~",
#else
	"<a>&~~;x", "<a>&#~~;x</a>y", "<a>&#x~~;x", "<a>x&am~;~", "<a>&q~ot;<b>", "<a>&#42949672~~;", "<a>&#x00000000000~~;<b>x", "<a>&abcdefghijklm~~<b>", "<a b='&~~;'>x", "<a b=\"&#~;\">~", "<a b='&~' c='x'>y", "<a>&amp;~&lt;~", "<a>&#x4~;\r~\n<b>", "<a b=&l~;~>x", "<a &l~=x>", "<a&g~;>x", "<a>x</a&~;>y", "<?xml v='&#~;'~?>", "<!D &~; '&#~'>x", "<a>&&~;<b>", "<a>&~&lt;",
#endif
};
typedef CharSetOf<IN>::T InCS;
typedef XMLScanner<SrcIterator,InCS,CharSetOf<OUT>::T,std::string> Scanner;
static void doc( bool warm)
{
	std::string s; const std::string text( docText( warm, tmpl, sizeof(tmpl)/sizeof(*tmpl))); const char* p = text.c_str();
	for (; *p; p++) if (*p == '~') { uchar b = sym_byte();
#if IN == 0
		sym_assume( b < 128);
#endif
		ref::put( s, IN, b); } else ref::put( s, IN, (uchar)*p);
	char* mem = new char[ s.size()]; std::memcpy( mem, s.data(), s.size());
	Scanner a( (InCS()), SrcIterator( mem, s.size())), b( (InCS()), SrcIterator( mem, s.size()));
	unsigned m0 = 0xFFFF; if (!warm) { m0 = sym_byte(); m0 |= sym_byte() << 8; } bool masked = false;
	for (unsigned n=0; n<=s.size()+4; n++)
	{
		unsigned m = m0;
#if PERCALL
		if (!warm) m = n == 0 ? 0xFFFF : n % 2 ? m0 : m0 ^ 0xFFFF;
#endif
		int ta = a.nextItem(), tb = b.nextItem( (unsigned short)m);
		if (ta == ref::ErrorOccurred) { int e = a.getError(); if (e == ref::UndefEntity) return; sym_assert( tb == ta, "same elements with mask (error)"); sym_assert( b.getError() == e, "same error with mask"); sym_assert( a.getPosition() == b.getPosition(), "same position of the error"); if (masked && !warm) sym_cover("error"); return; }
		sym_assert( ta == tb, "same elements with mask"); sym_assert( a.getPosition() == b.getPosition(), "same position with mask");
		if (sym_decide( (m >> ta) & 1)) { sym_assert( a.getTokenPosition() == b.getTokenPosition() || ta == ref::HeaderStart, "same token position with mask"); sym_assert( a.getItemSize() == b.getItemSize() && sym_memeq( a.getItemPtr(), b.getItemPtr(), a.getItemSize()), "same text with mask"); if (masked && !warm) sym_cover("text behind masked element"); }
		else masked = true;
		if (ta == ref::Exit) { if (masked && !warm) sym_cover("end of document"); return; }
	}
	sym_fail("end");
}
int main() { doc( true); doc( false); return 0; }
