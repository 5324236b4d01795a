// S12: iterating with begin()/end() visits exactly the elements that nextItem delivers, with the same texts, names and error messages.
// IN/OUT encodings, ITER 0 char* 1 CStringIterator 2 SrcIterator, SET templates
#include "scan.hpp"
using namespace textwolf;
static const char* const tmpl[] = {
#if SET == 0
	"~", "<~", "<a>~~</a>x", "<a b='~~'/>~", "<a ~=\"~\"/>", "<!--~~-->x", "<a>x<?p~?>y", "<?xml ~='1'~?>\n<a>", "<?xml?>~~", "<!D '~' ~>~", "<!D [~]~>\n<a>", "<a>x</~><b~>", "<a~/~>x", "<a>&~~;x", "<a>&#x4~;\r~\n", "<a b='&~~;'>x", "<a>&e;~</a>",
#endif
};
#if ITER == 0
typedef char* It;
#elif ITER == 1
typedef CStringIterator It;
#else
typedef SrcIterator It;
#endif
typedef CharSetOf<IN>::T InCS;
typedef XMLScanner<It,InCS,CharSetOf<OUT>::T,std::string> Scanner;
static void doc( bool warm)
{
	std::string s; const std::string text( docText( warm, tmpl, sizeof(tmpl)/sizeof(*tmpl))); const char* p = text.c_str();
	for (; *p; p++) if (*p == '~') { uchar b = sym_byte();
#if IN == 0
		sym_assume( b < 128);
#endif
		if (ITER == 0) sym_assume( b != 0); ref::put( s, IN, b); } else ref::put( s, IN, (uchar)*p);
	std::size_t w = unitWidth( IN); char* mem = new char[ s.size() + w]; std::memcpy( mem, s.data(), s.size()); std::memset( mem + s.size(), 0, w);
#if ITER == 0
	It it( mem);
#else
	It it( mem, s.size());
#endif
	Scanner::EntityMap em; em["e"] = 0xE4;
	Scanner a( CharSetOf<IN>::make(), it, em), b( CharSetOf<IN>::make(), it, em);
	unsigned how = warm ? 0 : sym_choose( 4); Scanner::iterator i, end = b.end(), none; sym_assert( none != end, "an iterator without scanner is not at the end");
	if (how == 1) { i = b.begin( false); sym_assert( i != end && i->type() == XMLScannerBase::None && i->content() == 0 && i->size() == 0, "begin without fetching"); ++i; } else if (how == 2) { Scanner::iterator c( b.begin()); i = c; } else i = b.begin();
	std::size_t n = 0;
	for (;;)
	{
		int ty = a.nextItem(); const Scanner::iterator::Element& e = *i;
		sym_assert( e.type() == ty, "element type"); sym_assert( e.name() && !std::strcmp( e.name(), XMLScannerBase::getElementTypeName( (XMLScannerBase::ElementType)ty)), "name of the type"); sym_assert( e.valid() == (ty != ref::Exit && ty != ref::ErrorOccurred), "valid");
		sym_assert( (i == end) == (ty == ref::Exit) && (i != end) == (ty != ref::Exit), "equal to the end exactly at the end"); sym_assert( (i == i) == (ty == ref::Exit), "iterators are equal at the end only");
		if (ty == ref::ErrorOccurred) { const char* m = 0; sym_assert( a.getError( &m) != 0, "reason"); sym_assert( e.error() && !std::strcmp( e.error(), m), "error message"); sym_assert( e.content() == e.error() && e.size() == std::strlen( m), "content of an error is its message"); const char* m2 = 0; b.getError( &m2); sym_assert( m2 && !std::strcmp( m, m2), "the scanner still knows the reason"); if (!warm) sym_cover("error"); break; }
		sym_assert( e.error() == 0, "no error message without error"); sym_assert( e.size() == a.getItemSize() && sym_memeq( e.content(), a.getItemPtr(), e.size()), "text");
		Scanner::iterator::Element cp( e); sym_assert( cp.type() == e.type() && cp.content() == e.content() && cp.size() == e.size(), "copy of the element");
		sym_assert( a.getPosition() == b.getPosition() && a.getTokenPosition() == b.getTokenPosition(), "position");
		if (ty == ref::Exit) { ++i; sym_assert( i == end && !i->valid(), "stays at the end"); if (!warm) sym_cover("end of document"); break; }
		if (++n > s.size()*2 + 4) sym_fail("end");
		if (how == 3) { Scanner::iterator o( i++); sym_assert( o->type() == ty && o != end, "post increment"); } else { Scanner::iterator& r = ++i; sym_assert( &r == &i, "pre increment"); }
	}
	delete [] mem;
}
int main() { doc( true); doc( false); return 0; }
