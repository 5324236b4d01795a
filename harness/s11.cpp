// S11: a copied (or assigned) scanner continues like its origin, and neither disturbs the other.
// IN/OUT encodings (IN 100+page: code page), ITER 0 char* 1 CStringIterator 2 SrcIterator, SET templates, CHUNK 1: copy while waiting for the next chunk, origin released
#include "scan.hpp"
using namespace textwolf;
#ifndef CHUNK
#define CHUNK 0
#endif
static const char* const tmpl[] = {
#if SET == 0
	"<a b='~' c=\"x\">~y<b/>z</a>", "<?xml a='~' b=\"~\"?>\n<!D '~' x>\n<a>x</a>", "<a>\r~\n&lt;~</a><b>&e;</b>", "<a ~=~>&#x2~;</a~>", "<a><!--~--><?~?><![CDATA[~]]>~</a>", "<~~><b>x</c>",
#else
	"<abc d='&am~;'>", "<a>&#~~;x", "<a>&#x4~;\r~\n", "<a>&e;~", "<a>&l~;x", "<?xml a='b~'?>",
#endif
};
#if ITER == 0
typedef char* It;
#elif ITER == 1
typedef CStringIterator It;
#else
typedef SrcIterator It;
#endif
#if IN >= 100
typedef charset::IsoLatin InCS; static InCS inCS() { return InCS( IN-100); }
enum {SRCENC=ref::LATIN1};
#else
typedef CharSetOf<IN>::T InCS; static InCS inCS() { return CharSetOf<IN>::make(); }
enum {SRCENC=IN};
#endif
typedef XMLScanner<It,InCS,CharSetOf<OUT>::T,std::string> Scanner;
struct Rec { int type, err; std::size_t pos, tok; std::string txt; };
static Rec next( Scanner& sc) { Rec e; e.type = sc.nextItem(); e.err = 0; e.pos = sc.getPosition(); e.tok = sc.getTokenPosition(); if (e.type == ref::ErrorOccurred) e.err = sc.getError(); else e.txt.assign( sc.getItemPtr(), sc.getItemSize()); return e; }
static bool last( const Rec& e) { return e.type == ref::ErrorOccurred || e.type == ref::Exit; }
static void same( const Rec& x, const Rec& r, bool pos)
{
	sym_assert( x.type == r.type, "element type"); sym_assert( x.err == r.err, "error"); sym_assert( x.txt.size() == r.txt.size() && sym_memeq( x.txt.data(), r.txt.data(), x.txt.size()), "text");
	if (pos) { sym_assert( x.pos == r.pos, "position"); sym_assert( x.tok == r.tok, "token position"); }
}
#ifdef LONG
enum {MaxRec=300};
static unsigned place( unsigned n) { unsigned k[4] = {0,1,n/2,n-1}, r = k[ sym_choose( 4)]; return r < n ? r : n-1; }	// where to copy
#else
enum {MaxRec=32};
static unsigned place( unsigned n) { return sym_choose( n); }
#endif
static void build( std::string& s, bool warm)
{
	const std::string text( docText( warm, tmpl, sizeof(tmpl)/sizeof(*tmpl))); const char* p = text.c_str();
	for (; *p; p++) if (*p == '~') { uchar b = sym_byte();
#if IN == 0
		sym_assume( b < 128);
#endif
		sym_assume( b != 0); ref::put( s, SRCENC, b); } else ref::put( s, SRCENC, (uchar)*p);
}
#if CHUNK == 0
static void doc( bool warm)
{
	std::string s; build( s, warm); std::size_t w = unitWidth( SRCENC); char* mem = new char[ s.size() + w]; std::memcpy( mem, s.data(), s.size()); std::memset( mem + s.size(), 0, w);
	Scanner::EntityMap em; em["e"] = 0xE4;
#if ITER == 0
	It it( mem);
#else
	It it( mem, s.size());
#endif
	Rec r[ MaxRec]; unsigned n = 0; { Scanner sc( inCS(), it, em); do { if (n >= MaxRec) sym_fail("harness: elements"); r[n] = next( sc); } while (!last( r[n++])); }
	unsigned at = warm ? 1 : place( n), how = warm ? 0 : sym_choose( 3); 
	Scanner* o = new Scanner( inCS(), it, em); for (unsigned i=0; i<at; i++) same( next( *o), r[i], true);
	if (how == 2) { Scanner* c = new Scanner; *c = *o; same( next( *c), r[at], true); delete c; }	// assigned
	Scanner* c = new Scanner( *o);
	if (at) sym_assert( c->getItemSize() == r[at-1].txt.size() && sym_memeq( c->getItemPtr(), r[at-1].txt.data(), r[at-1].txt.size()), "copy has the current element");
	if (how == 1) { delete o; o = 0; }
	for (unsigned i=at; i<n; i++) { same( next( *c), r[i], true); if (o) same( next( *o), r[i], true); }
	if (!warm) sym_cover( how == 0 ? "both" : how == 1 ? "origin released" : "assigned");
	delete c; delete o; delete [] mem;
}
#else
struct Feed { jmp_buf eom; Scanner* sc; unsigned at, n, cut; char* mem; const char* doc; Rec r[ MaxRec]; unsigned k; 
	void feed() { unsigned to = at == 0 ? cut : n; char* m = new char[ to-at ? to-at : 1]; std::memcpy( m, doc + at, to-at); sc->getIterator().putInput( m, to-at, to == n ? 0 : &eom); delete [] mem; mem = m; at = to; } };
static void doc( bool warm)
{
	std::string s; build( s, warm); Rec r[ MaxRec]; unsigned n = 0; Scanner::EntityMap em; em["e"] = 0xE4;
	{ char* mem = new char[ s.size()]; std::memcpy( mem, s.data(), s.size()); Scanner sc( inCS(), It( mem, s.size()), em); do { if (n >= MaxRec) sym_fail("harness: elements"); r[n] = next( sc); } while (!last( r[n++])); delete [] mem; }
	Feed* f = new Feed; f->sc = new Scanner( inCS(), It(), em); f->at = 0; f->n = s.size(); f->cut = warm ? 3 : 1 + place( s.size()-1); f->mem = 0; f->doc = s.data(); f->k = 0;
	f->feed();
	if (setjmp( f->eom) != 0) { Scanner* c = new Scanner( *f->sc); delete f->sc; f->sc = c; f->feed(); if (!warm) sym_cover("copied while waiting for input"); }
	for (;;) { Rec e = next( *f->sc); same( e, r[ f->k], true); if (last( e)) break; f->k++; }
	sym_assert( f->k + 1 == n, "number of elements");
	delete f->sc; delete [] f->mem; delete f;
}
#endif
int main() { doc( true); doc( false); return 0; }
