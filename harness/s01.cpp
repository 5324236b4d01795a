// S01: arbitrary bytes from the start and from inside every markup construct: memory safety and termination.
// IN encoding (ref::Enc, 100+page for ISO-8859), ITER 0 char* 1 CStringIterator 2 SrcIterator 3 IStreamIterator, NX symbolic bytes, OUT output encoding, FIXBUF 1: output into a StaticBuffer of 8 bytes
#include "scan.hpp"
#include "textwolf/staticbuffer.hpp"
using namespace textwolf;
#ifndef ITER
#define ITER 1
#endif
#ifndef OUT
#define OUT ref::UTF8
#endif
static const char* const prefix[] = {
	"", "<", "<?", "<?xm", "<?xml", "<?xml ", "<?xml a", "<?xml a ", "<?xml a=", "<?xml a=b", "<?xml a='", "<?xml a=\"", "<?xml a=''", "<?xml ?", "<?xml?>", "<a", "<a ", "<a b", "<a b ", "<a b=", "<a b=c", "<a b='", "<a b=\"", "<a b=''", "<a/", "<a>", "<a>x", "<a>\r", "<a></", "<a></a", "<a></a ",
	"<a><?", "<a><?p?", "<!", "<!-", "<!--", "<!---", "<!----", "<!-->", "<![", "<![CDAT", "<![CDATA", "<![CDATA[", "<![CDATA[]", "<![CDATA[]]", "<!DOC", "<!D ", "<!D '", "<!D \"", "<!D [", "<!D []", "<!D>",
	"<a>&", "<a>&#", "<a>&#x", "<a>&#1", "<a>&#xA", "<a>&a", "<a>&lt", "<a>&#42949672", "<a>&#xFFFFFF", "<a>&#00000000000000", "<a>&#x0000000000000", "<a>&abcdefghijklm", "<a>&abcdefghijklmn", "<a b='&", "<a b=\"&#", "<&", "</", "<?xml a='&#x", "<!D &" };
#if ITER == 0
typedef char* It;
#elif ITER == 1
typedef CStringIterator It;
#elif ITER == 2
typedef SrcIterator It;
#else
typedef IStreamIterator It;
#endif
#if FIXBUF
struct Buf :public StaticBuffer { Buf() :StaticBuffer( 8) {} };
#else
typedef std::string Buf;
#endif
#if IN >= 100
typedef charset::IsoLatin InCS; static InCS inCS() { return InCS( IN-100); }
enum {SRCENC=ref::LATIN1};
#else
typedef CharSetOf<IN>::T InCS; static InCS inCS() { return CharSetOf<IN>::make(); }
enum {SRCENC=IN};
#endif
typedef XMLScanner<It,InCS,CharSetOf<OUT>::T,Buf> Scanner;
static void run( bool warm)
{
	std::string s; const std::string text( docText( warm, prefix, sizeof(prefix)/sizeof(*prefix))); const char* p = text.c_str();
#ifdef LONG
	for (; *p; p++) if (*p == '~') { uchar b = sym_byte(); if (IN == 0) sym_assume( b < 128); ref::put( s, SRCENC, b); } else
#else
	for (; *p; p++)
#endif
		ref::put( s, SRCENC, (uchar)*p);
	unsigned nx = warm ? 0 : NX; std::size_t n = s.size() + nx, w = unitWidth( SRCENC); 
	bool term = ITER == 0; char* mem = new char[ n + (term ? w : 0)]; std::memcpy( mem, s.data(), s.size()); for (unsigned i=0; i<nx; i++) mem[ s.size()+i] = (char)sym_byte(); if (term) std::memset( mem + n, 0, w);
	MemStream ms( mem, n); 
#if ITER == 0
	It it( mem);
#elif ITER == 3
	It it( &ms, 3);
#else
	It it( mem, n);
#endif
	unsigned mask = 0xFFFF; 
#if MASK
	if (!warm) { mask = sym_byte(); mask |= sym_byte() << 8; }
#endif
	Scanner sc( inCS(), it); int ty; std::size_t calls = 0, last = 0;
	for (;;)
	{
		ty = sc.nextItem( (unsigned short)mask); sym_assert( ty > 0 && ty <= ref::Exit, "element type is one of the defined ones"); 
		sym_assert( sc.getPosition() >= last, "position does not decrease"); last = sc.getPosition(); sym_assert( sc.getTokenPosition() <= sc.getPosition(), "token position is not behind the position");
		if (ty == ref::ErrorOccurred || ty == ref::Exit) break;
		std::size_t sz = sc.getItemSize(); const char* q = sc.getItemPtr(); volatile char sink; for (std::size_t k=0; k<sz; k++) sink = q[k]; sym_assert( sz == sc.getItem().size(), "delivered text is readable");
		sym_assert( ++calls <= n/w * 2 + 4, "number of elements is bounded by the size of the input");
	}
	if (!warm) sym_cover( ty == ref::Exit ? "end of document" : "error");
	if (ty == ref::ErrorOccurred) { const char* m = 0; int e = sc.getError( &m); sym_assert( e > 0 && e <= 15 && m != 0, "error is one of the defined ones"); }
	for (unsigned k=0; k<2; k++) { int t2 = sc.nextItem( (unsigned short)mask); if (ty == ref::Exit) sym_assert( t2 == ref::Exit, "end of document stays the end"); }
	delete [] mem;
}
int main() { run( true); run( false); return 0; }
