// W01: what the printer writes the scanner reads back.
// APP encoding of the application (ref::Enc, LATIN1), OUTS list of document encodings (100+page: ISO-8859 page), NX symbolic characters per slot
#include "scan.hpp"
#include "textwolf/xmlprinter.hpp"
using namespace textwolf;
#ifndef NX
#define NX 2
#endif
// documents: T open, A attribute, V value or content, C close, H header, D doctype; each followed by a text up to the next blank; '~' symbolic character, '%' symbolic name character
#if APP == 0 || APP == 7
#define DT "H D "
#else
#define DT "H "
#endif
static const char* const tmpl[] = {
#ifdef LONG
	"5H Ta Ab V{x}* C", "3{Ta }Vx* {C }", "5T{n}% A{a} V* C", "3Ta {Ab Vx }V* C", "3Ta V{&}* C", "3Ta {V< }V* C", "5Ta V{v}* C", "3Ta Ab V{\"}* C", "3Ta {Tb C }V* C", "3{Ta Ab Vc }Vx* {C }", "4Ta Ab V{\t}* V{\n}* C",
#else
	"H Ta Aa V* C", "H Ta V* C", "Ta Ab V&*'<\"> Ac V Tb C Vx V&amp; C", "Ta Tb C V*x C", "H Ta%b Ax V1 C", "Ta A%x V1 Tb V> C C", DT "Ta Aa V Tb V* C V&lt; C", "Ta V Tb Tc C C V\r Td% C", "Ta Aa Vx*y Ab V V<tab> C", "Ta% Tbc% Td C C C", "Ta Aa V\t*\n V\r C", "Ta Aa V V\r*\n C", "Ta V&#x*; C", "Ta V* Vx] Vy C",
#endif
};
static u32 symChar( bool nm)
{
#if APP == 7 || defined(LONG)
	u32 c = sym_byte();
#ifdef LONG
	if (nm) sym_assume( (c & ~7u) == 'h'); else sym_assume( (c & ~3u) == '$' || (c & ~3u) == '<');
#endif
#else
	static const u32 plane[] = {0,0,1,16}; unsigned k = sym_choose( (APP == ref::UCS2LE || APP == ref::UCS2BE) ? 2 : 4); u32 c = sym_byte(); if (k == 0) sym_assume( c < 128); else { uchar b1 = sym_byte(); c |= (u32)b1 << 8; if (plane[k] == 0) { sym_assume( !(b1 >= 0xD8 && b1 < 0xE0)); sym_assume( c >= 128); } c |= plane[k] << 16; }
#endif
	if (nm) sym_assume( (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == ':' || c == '.' || (c >= 0xC0 && c != 0xD7 && c != 0xF7 && (c & 0xFFFE) != 0xFFFE));
	else sym_assume( c == 9 || c == 10 || c == 13 || (c >= 0x20 && (c & 0xFFFE) != 0xFFFE));
	return c;
}
struct Item { int type; unsigned from, len; };
#ifdef LONG
enum {MaxItem=4000,MaxPool=20000,MaxDepth=1100};
#else
enum {MaxItem=40,MaxPool=200,MaxDepth=8};
#endif
template <class CS> static CS mk( int, const CS*) { return CS(); }
static charset::IsoLatin mk( int out, const charset::IsoLatin*) { return charset::IsoLatin( out >= 100 ? out - 100 : 1); }
template <class DocCS> static void run( int out, bool warm)
{
	typedef CharSetOf<APP>::T AppCS; typedef XMLPrinter<DocCS,AppCS,std::string> Printer; typedef XMLScanner<CStringIterator,DocCS,AppCS,std::string> Scanner;
	DocCS dcs = mk( out, (const DocCS*)0); Printer pr( dcs, true); static Item ex[ MaxItem]; static u32 pool[ MaxPool]; unsigned n = 0, np = 0; std::string buf; 
	std::string text = warm ? "Ta Ab Vc V& C" : tmpl[ sym_choose( sizeof(tmpl)/sizeof(*tmpl))];
#ifdef LONG
	if (!warm) { unsigned mx = most( text[0]); text = repeated( text.c_str()+1, scaled( mx < LONG ? mx : LONG)); }
#endif
	const char* p = text.c_str(); unsigned stack[ MaxDepth], sp = 0; bool intag = false, empty = false, attr = false; (void)empty;
	if (*p == 'H') pr = Printer( dcs);
	while (*p)
	{
		char op = *p++; unsigned f = np; for (; *p && *p != ' '; p++) { unsigned k = *p == '*' ? NX : *p == '%' ? 1 : 0; if (!k) pool[ np++] = (uchar)*p; else if (!warm) while (k--) pool[ np++] = symChar( *p == '%'); } if (*p) p++; if (np + 20 > MaxPool) sym_fail("harness: pool");
		std::string s; for (unsigned i=f; i<np; i++) ref::put( s, APP, pool[i]); std::size_t before = buf.size(); bool ok = false; Item it = {0,f,np-f};
		switch (op)
		{
			case 'H': ok = pr.printHeader( 0, warm ? 0 : "yes", buf); { const char* tx[5] = {"?xml","version","1.0","encoding","UTF-8"}; static const int ty[5] = {ref::HeaderStart,ref::HeaderAttribName,ref::HeaderAttribValue,ref::HeaderAttribName,ref::HeaderAttribValue}; for (int k=0; k<7; k++) { Item h = {k < 5 ? ty[k] : k == 5 ? ref::HeaderAttribName : ref::HeaderAttribValue, np, 0}; const char* t = k < 5 ? tx[k] : k == 5 ? "standalone" : "yes"; while (*t) pool[ np++] = (uchar)*t++; h.len = np - h.from; ex[n++] = h; } Item e = {ref::HeaderEnd,np,0}; ex[n++] = e; } break;
			case 'D': ok = pr.printDoctype( "r", "p", "s", buf); { const char* tx[5] = {"DOCTYPE","r","PUBLIC","p","s"}; for (int k=0; k<5; k++) { Item h = {ref::DocAttribValue,np,0}; for (const char* t=tx[k]; *t; t++) pool[ np++] = (uchar)*t; h.len = np - h.from; ex[n++] = h; } Item e = {ref::DocAttribEnd,np,0}; ex[n++] = e; } break;
			case 'T': ok = pr.printOpenTag( s.data(), s.size(), buf); it.type = ref::OpenTag; ex[n++] = it; stack[ sp++] = n-1; intag = true; break;
			case 'A': ok = pr.printAttribute( s.data(), s.size(), buf); it.type = ref::TagAttribName; ex[n++] = it; attr = true; break;
			case 'V': ok = pr.printValue( s.data(), s.size(), buf); if (attr) { it.type = ref::TagAttribValue; ex[n++] = it; } else { intag = false; if (it.len) { if (ex[n-1].type == ref::Content) ex[n-1].len += it.len; else { it.type = ref::Content; ex[n++] = it; } } }
				// nothing with a meaning in markup unescaped in the value
				{ if (unitWidth( out >= 100 ? ref::LATIN1 : out) == 1 && !warm) { bool bad = false; std::size_t b = before, e = buf.size(); if (attr) { b++; e--; } for (; b < e; b++) { char ch = buf[b]; bad |= ch == '<' || (ch == '>' && (attr || b > before)) || (attr && (ch == '"' || ch == '\'' || ch == '\n' || ch == '\t' || ch == '\r')); } sym_assert( !bad, "no markup character unescaped in a printed value"); } }
				attr = false; break;
			case 'C': ok = pr.printCloseTag( buf); it = ex[ stack[ --sp]]; if (intag) { it.type = ref::CloseTagIm; it.len = 0; } else it.type = ref::CloseTag; ex[n++] = it; intag = false; break;
		}
		sym_assert( ok, "printing succeeds"); if (n + 10 > MaxItem) sym_fail("harness: items");
	}
	char* mem = new char[ buf.size() ? buf.size() : 1]; std::memcpy( mem, buf.data(), buf.size()); Scanner sc( dcs, CStringIterator( mem, buf.size()));
	for (unsigned k=0; k<n; k++)
	{
		int ty = sc.nextItem(); if (ty == ref::Content && ex[k].type != ref::Content && sp == 0) { ty = sc.nextItem(); } // line end behind the root element
		sym_assert( ty == ex[k].type, "element read back"); std::string x; for (unsigned q=0; q<ex[k].len; q++) ref::put( x, APP, pool[ ex[k].from+q]);
		sym_assert( sc.getItemSize() == x.size() && sym_memeq( sc.getItemPtr(), x.data(), x.size()), "text read back"); 
	}
	int ty = sc.nextItem(); while (ty == ref::Content) { sym_assert( sp == 0 && sc.getItemSize() == unitWidth( APP), "only a line end behind the root element"); ty = sc.nextItem(); } sym_assert( ty == ref::Exit, "end read back"); if (!warm) sym_cover("read back");
	delete [] mem;
}
int main()
{
	static const int outs[] = {OUTS}; enum {N=sizeof(outs)/sizeof(*outs)}; unsigned sel = N;
	for (unsigned w=0; w<2; w++)
	{
		if (w) sel = sym_choose( N);
		for (unsigned k=0; k<N; k++) if (!w || k == sel) switch (outs[k])
		{
#define RUN(E) case E: run<CharSetOf<E>::T>( E, w == 0); break;
#if OUTSET & 1
			RUN(0)
#endif
#if OUTSET & 2
			RUN(1) RUN(2)
#endif
#if OUTSET & 4
			RUN(3) RUN(4)
#endif
#if OUTSET & 8
			RUN(5) RUN(6)
#endif
#if OUTSET & 16
			default: run<charset::IsoLatin>( outs[k], w == 0); break;
#endif
		}
	}
	return 0;
}
