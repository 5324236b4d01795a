// S06: feeding a document in chunks gives the same elements, texts, errors and positions as feeding it at once.
// IN/OUT encodings, SPLIT 0 one split (everywhere) 1 byte by byte 2 two splits 3 chunks of one size (LONG), VIA 0 putInput on the iterator (positions compared) 1 setSource, MASK 1: symbolic element mask, NX symbolic bytes at '*'
#include "scan.hpp"
using namespace textwolf;
#ifndef OUT
#define OUT ref::UTF8
#endif
#ifndef MASK
#define MASK 0
#endif
// '~' one symbolic character of one byte (raw byte in byte encodings), '^' symbolic wide character
static const char* const tmpl[] = {
#if SET == 0
	"<a>~~</a>", "<a>\r~\n~</a>", "<a b='~'/>~", "<a ~=\"~\"/>", "<a b=~c~>", "<~a~>x</a~>", "<!--~~-->x", "<a><?~?>x<?p~?>", "<![CDATA[~]~]>x", "<a><![CD~TA[x]]>", "<?xml ~='1'~?>\n<a>", "<?xm~ ?>", "<?xml?>~~", "<!D '~' ~>~", "<!D [~]~>\n<a>", "<a>x</~><b~>", "<a~/~",
#elif SET == 1
	"<a>&~~;x", "<a>&#~~;x", "<a>&#x~~;x", "<a>x&am~;~", "<a>x&l~;", "<a>&q~ot;", "<a>&#42949672~~;", "<a>&#xFFFFFF~~;", "<a>&#0000000000000~~;", "<a>&#x00000000000~~;", "<a>&abcdefghijkl~~", "<a b='&~~;'>", "<a b=\"&#~;\">~", "<a>&amp;~&lt;~", "<a>&#x4~;\r~\n", "<a b=&l~;~>", "<a>&e~;~", "<?xml v='&#~;'~",
#elif SET == 2	// wide characters
	"<a>^~</a>", "<a b='^'/>", "<a ^='~'>", "<a>^&lt;~", "<^>x", "<a>~^", "<!--^-->x", "<a>&~^;", "<a>\r^",
#elif SET == 3	// long document, few symbolic bytes
	"<?xml version='1.0' encoding=\"x\"?>\n<!DOCTYPE a \"b\" [<!E>]>\n<!-- c - -->\n<a b='c&amp;~' d=e><?p ?>x\r\n&#x41;<![CDATA[ ]] ]]>~</a >",
#endif
};
typedef CharSetOf<IN>::T InCS;
typedef XMLScanner<SrcIterator,InCS,CharSetOf<OUT>::T,std::string> Scanner;
struct Rec { int type, err; std::size_t pos, tok; std::string txt; };
#ifdef LONG
enum {MaxRec=300};
#else
enum {MaxRec=40};
#endif
struct Run
{
	Rec r[ MaxRec]; unsigned n; 
	Run() :n(0) {}
	bool take( Scanner& sc, int ty, unsigned mask) { if (n >= MaxRec) sym_fail("harness: elements"); Rec& e = r[n++]; e.type = ty; e.err = 0; e.pos = sc.getPosition(); e.tok = sc.getTokenPosition(); if (ty == ref::ErrorOccurred) { e.err = sc.getError(); return false; } if ((mask >> ty) & 1) e.txt.assign( sc.getItemPtr(), sc.getItemSize()); return ty != ref::Exit; }
};
static bool wideChar( std::string& s)
{
	if (IN == ref::UTF8) { unsigned k = 2 + sym_choose( 3); uchar b = sym_byte(); sym_assume( k == 2 ? (b >= 0xC2 && b < 0xE0) : k == 3 ? (b >= 0xE0 && b < 0xF0) : (b >= 0xF0 && b < 0xF5)); s.push_back( b); for (unsigned i=1; i<k; i++) { b = sym_byte(); sym_assume( b >= 0x80 && b < 0xC0); s.push_back( b); } }
	else { unsigned w = unitWidth( IN); for (unsigned i=0; i<w; i++) s.push_back( sym_byte()); }
	return true;
}
struct Feed { const char* doc; std::size_t n, at; std::size_t cut[3]; unsigned ncut, next; bool finalEmpty; char* mem; std::size_t memsize; jmp_buf eom; Scanner* sc; Run run; unsigned mask;
	// next chunk; the memory of the last one is released
	void feed()
	{
		std::size_t to; if (SPLIT == 1) to = at + 1; else if (SPLIT == 3) to = at + cut[0]; else to = next < ncut ? cut[ next++] : n; if (to > n) to = n; bool last = to == n && !(finalEmpty && at < n); 
		char* m = new char[ to - at ? to - at : 1]; std::memcpy( m, doc + at, to - at);
		jmp_buf* e = last ? 0 : &eom;
#if VIA == 0
		sc->getIterator().putInput( m, to - at, e);
#else
		sc->setSource( SrcIterator( m, to - at, e));
#endif
		delete [] mem; mem = m; at = to;
	}
};
static void doc( bool warm)
{
	std::string s, text = docText( warm, tmpl, sizeof(tmpl)/sizeof(*tmpl));
	const char* p = text.c_str();
	for (; *p; p++) if (*p == '^') wideChar( s); else if (*p == '~') { uchar b = sym_byte(); 
#if IN == 0
		sym_assume( b < 128);
#endif
		ref::put( s, IN, b); } else ref::put( s, IN, (uchar)*p);
	std::size_t n = s.size(); unsigned mask = 0xFFFF;
#if MASK
	if (!warm) { mask = sym_byte(); mask |= sym_byte() << 8; }
#endif
	Feed* f = new Feed; f->doc = s.data(); f->n = n; f->at = 0; f->mem = 0; f->memsize = 0; f->next = 0; f->mask = mask; f->ncut = 0; f->finalEmpty = false;
	if (SPLIT == 0) { f->cut[0] = warm ? 1 : sym_choose( n+1); f->ncut = 1; if (f->cut[0] == n) f->finalEmpty = true; }
	if (SPLIT == 1) { f->finalEmpty = !warm && sym_choose( 2); }
	if (SPLIT == 3) { static const unsigned sz[] = {1,2,15,64,100,255,256,257,1000,1024}; f->cut[0] = warm ? 7 : sz[ sym_choose( sizeof(sz)/sizeof(*sz))]; f->ncut = 1; }
	if (SPLIT == 2) { f->cut[0] = warm ? 1 : sym_choose( n); f->cut[1] = warm ? 2 : f->cut[0] + sym_choose( n - f->cut[0]); f->ncut = 2; }
	Run whole; { char* mem = new char[ n]; std::memcpy( mem, s.data(), n); Scanner sc( (InCS()), SrcIterator( mem, n, 0)); while (whole.take( sc, sc.nextItem( mask), mask)) {} delete [] mem; }
	f->sc = new Scanner( (InCS()));
	{ volatile unsigned feeds = 0; 
	if (setjmp( f->eom) == 0) { f->feed(); } else { if (feeds++ > n + 2) sym_fail("end of chunk is signalled only if the chunk is consumed"); f->feed(); }
	for (;;) { int ty = f->sc->nextItem( f->mask); if (!f->run.take( *f->sc, ty, f->mask)) break; } }
	Run& c = f->run; sym_assert( c.n == whole.n, "number of elements");
	for (unsigned i=0; i<c.n && i<whole.n; i++)
	{
		sym_assert( c.r[i].type == whole.r[i].type, "element type"); sym_assert( c.r[i].err == whole.r[i].err, "error");
		sym_assert( c.r[i].txt.size() == whole.r[i].txt.size() && sym_memeq( c.r[i].txt.data(), whole.r[i].txt.data(), c.r[i].txt.size()), "text");
		if (VIA == 0) { sym_assert( c.r[i].pos == whole.r[i].pos, "position"); sym_assert( c.r[i].tok == whole.r[i].tok, "token position"); }
	}
	if (!warm) sym_cover( c.r[ c.n-1].type == ref::Exit ? "end of document" : "error");
	delete f->sc; delete [] f->mem; delete f;
}
int main() { doc( true); doc( false); return 0; }
