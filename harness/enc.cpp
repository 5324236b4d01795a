// S09, C06: documents with symbolic characters in every input and output encoding.
// IN input encoding (ref::Enc or 100+page), OUTS list of output encodings, BACK 1: scan the delivered text again (C06)
#include "scan.hpp"
using namespace textwolf;
#ifndef NSYMC
#define NSYMC 1
#endif
static const char* const tmpl[] = {"<a>^</a>", "<a b='x^'/>", "<a>x^y~</a>", "<a>\r^\n</a>", "<a ^='~'>", "<n^>~</n^>", "<?xml v=\"^\"?><a>", "<!D '^' z^>", "<a>&#x20AC;^&lt;&#x1F600;</a>", "<!--^--><a>^</a>", "<a><?p ^?><![CDATA[^]]>^</a>"
#if NSYMC > 1
	,"<a>^^</a>", "<a b='^' c=\"^\">"
#endif
	};
static u32 symChar( u32& raw)
{
#if IN >= 100
	uchar b = sym_byte(); sym_assume( b != 0); raw = b; if (b < 128) return b; u32 c = ISO[IN-101][b & 127]; sym_assume( c != 0); return c;
#elif IN == 7
	uchar b = sym_byte(); sym_assume( b != 0); return raw = b;
#else
	// character in the ASCII range, in the basic plane, in another plane
	static const u32 plane[] = {0,0,1,2,15,16}; unsigned k = sym_choose( (IN == ref::UCS2LE || IN == ref::UCS2BE) ? 2 : 6); u32 c = sym_byte(); if (k == 0) { sym_assume( c != 0 && c < 128); return raw = c; }
	uchar b1 = sym_byte(); c |= (u32)b1 << 8; if (plane[k] == 0) { sym_assume( !(b1 >= 0xD8 && b1 < 0xE0)); sym_assume( c >= 128); } c |= plane[k] << 16; return raw = c;
#endif
}
#if IN >= 100
typedef charset::IsoLatin InCS; static InCS inCS() { return InCS( IN-100); }
enum {SRCENC=ref::LATIN1};
#else
typedef CharSetOf<IN>::T InCS; static InCS inCS() { return CharSetOf<IN>::make(); }
enum {SRCENC=IN};
#endif
template <int OUT> static void run( bool warm)
{
	typedef XMLScanner<char*,InCS,typename CharSetOf<OUT>::T,std::string> Scanner; typedef XMLScanner<char*,typename CharSetOf<OUT>::T,charset::UCS4BE,std::string> Back;
	Doc d, raw; if (warm) { d.add( "<a b='c'>&lt;&#x41;</a>"); raw = d; }
	else { const char* p = tmpl[ sym_choose( sizeof(tmpl)/sizeof(*tmpl))]; u32 first = 0, fr = 0; for (; *p; p++) { if (*p == '^') { if (!first || NSYMC > 1) first = symChar( fr); d.add( first); raw.add( fr); } else if (*p == '~') { u32 r, c = symChar( r); sym_assume( c < 128); d.add( c); raw.add( r); } else { d.add( (uchar)*p); raw.add( (uchar)*p); } } }
	Source src( raw.c, raw.n, SRCENC); ref::Scan r; r.scan( d.c, d.n); Scanner sc( inCS(), src.mem);
	for (u32 k=0; k<r.nev; k++)
	{
		int ty = sc.nextItem(); const ref::Ev& e = r.ev[k]; checkEvent( sc, ty, e, src, OUT, CText);
		if (e.len && !warm) { sym_cover( "text"); bool nat = true; for (u32 q=0; q<e.len; q++) { if (OUT == ref::LATIN1) nat &= e.txt[q] < 256; else if (OUT == ref::UCS2LE || OUT == ref::UCS2BE) nat &= e.txt[q] < 0x10000; } if (!sym_decide( nat)) sym_cover("character reference"); }
#if BACK
		if (e.type != ref::ErrorOccurred && e.len)
		{
			bool markup = false; for (u32 q=0; q<e.len; q++) markup |= e.txt[q] == '<' || e.txt[q] == '&' || e.txt[q] == '\r';
			if (!sym_decide( markup))
			{
				std::string s2; ref::put( s2, OUT, '<'); ref::put( s2, OUT, 'a'); ref::put( s2, OUT, '>'); s2.append( sc.getItemPtr(), sc.getItemSize()); ref::put( s2, OUT, '<'); ref::put( s2, OUT, '/'); ref::put( s2, OUT, 'a'); ref::put( s2, OUT, '>'); s2.append( 4, 0);
				Back b( CharSetOf<OUT>::make(), const_cast<char*>( s2.data())); sym_assert( b.nextItem() == ref::OpenTag, "tag read back"); sym_assert( b.nextItem() == ref::Content, "content read back");
				std::string x; for (u32 q=0; q<e.len; q++) ref::put( x, ref::UCS4BE, e.txt[q]); sym_assert( b.getItemSize() == x.size() && sym_memeq( b.getItemPtr(), x.data(), x.size()), "original characters restored"); sym_assert( b.nextItem() == ref::CloseTag && b.nextItem() == ref::Exit, "end read back"); if (!warm) sym_cover("read back");
			}
		}
#endif
	}
}
template <int OUT> static void dispatch( unsigned k, bool warm);
int main()
{
	static const int outs[] = {OUTS}; enum {N=sizeof(outs)/sizeof(*outs)};
	unsigned sel = N;
	for (unsigned w=0; w<2; w++)
	{
		if (w) sel = sym_choose( N);
		for (unsigned k=0; k<N; k++) if (!w || k == sel) switch (outs[k])
		{
#define RUN(E) case E: run<E>( w == 0); break;
#if OUTSET & 1
			RUN(0) RUN(7)
#endif
#if OUTSET & 2
			RUN(1) RUN(2)
#endif
#if OUTSET & 4
			RUN(3) RUN(4)
#endif
#if OUTSET & 8
			RUN(5) RUN(6)
#endif
		}
	}
	return 0;
}
