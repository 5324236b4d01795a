// Scanner against the reference scanner on templates with symbolic bytes.
// IN/OUT encodings, ITER 0 char* 1 CStringIterator 2 SrcIterator 3 IStreamIterator (buffer size 3), SET templates, WHAT compared parts, NX symbolic bytes where the template has '*'
#ifdef SET
#if SET == 7
#define MAXDOC 67000
#define MAXEV 2200
#define MAXPOOL 67000
#endif
#endif
#include "scan.hpp"
using namespace textwolf;
#ifndef ITER
#define ITER 0
#endif
#ifndef IN
#define IN ref::LATIN1
#endif
#ifndef OUT
#define OUT ref::UTF8
#endif
#ifndef NX
#define NX 3
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 255
#endif
// '~' one symbolic byte, '*' NX symbolic bytes
static const char* const tmpl[] = {
#if SET == 0	// document level
	"*", "*>a</a>", "<?xml *>\n<a/>", "<?xml a='1'*>", "<?xml a=*?><b>", "<?xml a='*'?>", "<?xml a=\"*\" b='*'?>", "<?xml v='1'?>*<a>",
#elif SET == 1	// tags
	"<*>x", "<a*>x", "<a *>x</a>", "<a b*>x", "<a b=*/>", "<a b='*>x", "<a b=\"*'/>", "<a b='c'*/>", "<a/*x", "<a>x<*>y", "<a></*>y", "<a></a*y", "<a b='c' d=\"*\" e=f*>",
#elif SET == 2	// comments, processing instructions, CDATA
	"<!--*-->x", "<a><!--*--> x", "<!-*", "<a><!*", "<a><?*?> x", "<a>x<?p*?>", "<a><![*", "<a><![CDATA*", "<a><![CDATA[*]]> x", "<a>x<![CDATA[*", "<!--*--><a><!---->y</a>",
#elif SET == 3	// document type
	"<!*>", "<!DOCTYPE*>\n<a>", "<!DOCTYPE a *>x", "<!D '*>x", "<!D \"*\">x", "<!D a[*]>x", "<!D [*>", "<?xml v='1'?><!D *>\n *<a>",
#elif SET == 4	// texts: references
	"<a>&*;x", "<a>x&~*;</a>", "<a>&#*;x", "<a>&#x*;x", "<a>x&#4*;", "<a>x&#x1F*;", "<a>&a*;", "<a>&am*p;", "<a>&l*;", "<a>&q*t;", "<a>&nb~~;", "<a>&n~s~;", "<a>&q~~t;", "<a>&~uo~;", "<a>&ap~~;", "<a>&~~os;", "<a>&~t;", "<a>&am~;", "<a>&nbsp~;", "<a>&quot~;", "<a>&apos~;", "<a>&#42949672*;", "<a>&#xFFFFFF*;", "<a>&#00000000000000*;x", "<a>&#x000000000000*;x", "<a>&abcdefghijklm*", "<a>&abcdefghijklmn*;",
	"<a b='&*;'>", "<a b=\"x&#*;\">", "<a b=x&*>y", "<?xml v='&*;'?>", "<!D '&*;'>", "<a>&#*", "<a>&#x*", "<a>&*", "<a>&amp;&*;&lt;",
#elif SET == 5	// texts
	"<a>*</a>", "<a>x*", "<a>\r*y\n</a>", "<a>*&amp;*<b>", "<a>*&#x41;*<b>", "<a b='*' c=\"*\">*</a>", "<*~></*~>", "<a ~*=~*>", "<a>x</a>*<b>*y", "<a>&lt;&gt;&amp;&apos;&quot;*</a>", "<a>&nbsp;*x</a>", "<?xml v=\"*\"?>\r\n<a>",
#elif SET == 6	// caller's entities
	"<a>&*;x", "<a>x&e*;y&f;", "<a b='&*;'>", "<a>&ab*;", "<a>&ab;&ba;&*;&amp;", "<a>&l*;&zz",
#elif SET == 7	// long documents: '{...}' is repeated, as often as the number in front of the template and 65537 times at most says
	"9<a>{x}*</a>", "5<{n}~>y</{n}~>*", "5<a {k}~='v'>*", "5<a b='{v}*'>", "4<a b=\"{&lt;}*\"/>", "3<a{ b='c'} d='*'>x", "3{<a>}*{</a>}", "4<a>{&amp;}*</a>", "4<a>{\r\n}*", "5<!--{c}*-->x", "5<a><?{p}*?>x", "5<a><![CDATA[{]}*]]>x", "3<!D {a }*>\n<a>",
	"4<a>{ }*<b>", "4<{ }a{ }b{ }={ }'*'{ }>{ }x", "5{ }<a>*", "3<?xml {v='1' }*?>", "4<a>&{e}*;", "3<a/>{<b/>x}*", "3<a>{&#x41;}*", "5<a>{x}&*;</a>", "4<!D '{d}*'>x", "4<?xml v='{1}*'?>", "5<a>x</{a}~*", "4<!D [{[}*]>x", "9<a b=\"{v}*\">", "9<!--{c}-->*", "9<{n}*>",
#endif
};
#if ITER == 0
typedef char* It;
#elif ITER == 1
typedef CStringIterator It;
#elif ITER == 2
typedef SrcIterator It;
#else
typedef IStreamIterator It;
#endif
typedef XMLScanner<It,CharSetOf<IN>::T,CharSetOf<OUT>::T,std::string> Scanner;
template <class S, class I> static I warmIter( Source& src, MemStream& ms) {
#if ITER == 0
	return I( src.mem);
#elif ITER == 3
	return I( &ms, 3);
#else
	return I( src.mem, src.size);
#endif
}
// initialises the static tables once for all paths
template <class S, class I> static void warm() { Doc d; d.add( "<a b='c'>&lt;&#x41;</a>"); Source src( d.c, d.n, IN); MemStream ms( src.mem, src.size); I it = warmIter<S,I>( src, ms); S s( CharSetOf<IN>::make(), it); for (int k=0; k<9 && s.nextItem() != ref::Exit; k++) {} s.getError(); }
int main()
{
	warm<Scanner,It>();
	unsigned t = sym_choose( sizeof(tmpl)/sizeof(*tmpl)); Doc d;
#if SET == 7
	unsigned mx = most( tmpl[t][0]); if (mx > (LONG)) mx = LONG; std::string text = repeated( tmpl[t]+1, scaled( mx)); 
#else
	std::string text = tmpl[t];
#endif
	for (const char* p = text.c_str(); *p; p++)
	{ unsigned k = *p == '*' ? NX : *p == '~' ? 1 : 0; if (!k) d.add( (uchar)*p); while (k--) { uchar x = sym_byte(); sym_assume( x >= LO && x <= HI); d.add( x); } }
	Source src( d.c, d.n, IN); ref::Scan r; 
#if SET == 6
	static char nm[3][4] = {"ab","e1","zz"}; ref::Entity ents[3]; u32 ne = 1 + sym_choose( 3); Scanner::EntityMap em; 
	for (u32 i=0; i<ne; i++) { u32 v = i == 0 ? 0x20AC : i == 1 ? sym_byte() : 0x1F600; sym_assume( v != 0); char* own = new char[4]; std::memcpy( own, nm[i], 4); ents[i].name = nm[i]; ents[i].val = v; em[ own] = v; }
	r.ent = ents; r.nent = ne;
#endif
	r.scan( d.c, d.n); 
	#if SET == 4
	for (u32 i=0; i<r.nev; i++) for (u32 k=0; k<r.ev[i].len; k++) sym_assume( r.ev[i].txt[k] < 0x110000u && r.ev[i].txt[k] - 0xD800u >= 0x800u && r.ev[i].txt[k] != 0);
	#endif
#if ITER == 0
	It it( src.mem);
#elif ITER == 1
	It it( src.mem, src.size);
#elif ITER == 2
	It it( src.mem, src.size);
#else
	MemStream ms( src.mem, src.size); It it( &ms, 3);
#endif
#if SET == 6
	Scanner sc( CharSetOf<IN>::make(), it, em);
#else
	Scanner sc( CharSetOf<IN>::make(), it);
#endif
	std::size_t last = 0;
	for (u32 k=0; k<r.nev; k++)
	{
		int ty = sc.nextItem(); checkEvent( sc, ty, r.ev[k], src, OUT, WHAT);
		if ((WHAT) & CPos) { sym_assert( sc.getPosition() >= last, "position does not decrease"); last = sc.getPosition(); }
		sym_cover( ref::errText[0] == 0 && r.ev[k].type == ref::ErrorOccurred ? ref::errText[ r.ev[k].err] : XMLScannerBase::getElementTypeName( (XMLScannerBase::ElementType)r.ev[k].type));
	}
	if (!r.undef && r.ev[ r.nev-1].type == ref::Exit) { sym_assert( sc.nextItem() == ref::Exit, "end of document stays the end"); if ((WHAT) & CPos) sym_assert( sc.getPosition() == src.off[ r.i], "position at the end"); }
	return 0;
}
