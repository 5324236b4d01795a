// S13: the scanner delivers into any output sequence; a buffer of fixed size gets the prefix that fits and tells that something was dropped.
// IN/OUT encodings, BUF 0 StaticBuffer 1 vector<char>, NX symbolic bytes per '*'
#ifdef LONG
#define MAXDOC 9000
#define MAXEV 300
#define MAXPOOL 9000
#endif
#include "scan.hpp"
#include "textwolf/staticbuffer.hpp"
#include <vector>
using namespace textwolf;
static unsigned cap = 8; static char ext[ 16]; static bool useext = false;
#if BUF == 0
struct Buf :public StaticBuffer { Buf() :StaticBuffer( cap) {} };
#else
typedef std::vector<char> Buf;
#endif
static const char* const tmpl[] = {
	"<a>*</a>", "<a b='*' c=\"x~\"/>y", "<a>&#x~;~</a>", "<a>&am~;&l~x</a>", "<abc*>", "<?xml v='*'?>\r\n<a>", "<!D '~' ~~>x", "<a>\r*\n</a>", "<a><![CDATA[~]]>x</a>", "<a>&abcdef~x;y", "<abcd>~~~~</abcd>ef",
};
typedef XMLScanner<CStringIterator,CharSetOf<IN>::T,CharSetOf<OUT>::T,Buf> Scanner;
static void run( bool warm)
{
	Doc d; const std::string text( docText( warm, tmpl, sizeof(tmpl)/sizeof(*tmpl))); const char* p = text.c_str();
	for (; *p; p++) { unsigned k = *p == '*' ? NX : *p == '~' ? 1 : 0; if (!k) d.add( (uchar)*p); while (k--) { uchar x = sym_byte(); sym_assume( x != 0); if (IN == 0) sym_assume( x < 128); d.add( x); } }
	Source src( d.c, d.n, IN); ref::Scan r; r.scan( d.c, d.n); 
#ifdef LONG
	unsigned caps[] = {16,64,255,256,257,1000};
#else
	unsigned caps[] = {1,2,3,5,9};
#endif
	if (!warm) cap = BUF == 0 ? caps[ sym_choose( sizeof(caps)/sizeof(*caps))] : 0; else cap = 8;
	for (u32 i=0; i<r.nev; i++) for (u32 k=0; k<r.ev[i].len; k++) sym_assume( r.ev[i].txt[k] < 0x110000u && r.ev[i].txt[k] - 0xD800u >= 0x800u && r.ev[i].txt[k] != 0);
	Scanner* sc = new Scanner( CharSetOf<IN>::make(), CStringIterator( src.mem, src.size)); unsigned cp = warm ? 99 : sym_choose( 3), full = 0;
	for (u32 k=0; k<r.nev; k++)
	{
		int ty = sc->nextItem(); const ref::Ev& e = r.ev[k]; checkEvent( *sc, ty, e, src, OUT, CPos|CErr); 
		if (k == cp) { Scanner* c = new Scanner( *sc); delete sc; sc = c; }
		if (e.type == ref::ErrorOccurred) continue;
		std::string x; for (u32 i=0; i<e.len; i++) ref::put( x, OUT, e.txt[i]); std::size_t n = x.size();
#if BUF == 0
		if (n > cap) { n = cap; full = 1; } sym_assert( sc->getItem().overflow() == (x.size() > cap), "overflow is told exactly if text was dropped");
#endif
		sym_assert( sc->getItemSize() == n && sc->getItem().size() == n, "size of the text"); sym_assert( sym_memeq( sc->getItemPtr(), x.data(), n), "text (as much as fits)");
	}
	if (!warm) sym_cover( full ? "text dropped" : "all text fits"); delete sc;
}
int main() { run( true); run( false); return 0; }
