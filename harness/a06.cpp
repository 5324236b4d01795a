// A06: XML header and document events in path selection. PART 0: the header is an element of its own (no expression can name it), what follows is not influenced by it. PART 1: an event assigned to the root is reported once per document.
#include "path.hpp"
using namespace textwolf;
#ifndef KINDS2
#define KINDS2 KINDS
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
struct Raw { int t; Raw( int t_) :t(t_) {} };
static path::Select* xs; static path::Doc d; static path::Got g; static unsigned hits = 0;
static void feed( int raw, path::Ev& e) { int t = e.type; e.type = raw; path::feed( *xs, e, g); e.type = t; }
// the header of the document: events as they are for an element '?xml', delivered with the types of header events
static int rawType( unsigned k, int t) { return t == ref::OpenTag ? ref::HeaderStart : t == ref::CloseTag ? ref::HeaderEnd : t == ref::TagAttribName ? ref::HeaderAttribName : ref::HeaderAttribValue; }
static void check( const path::Expr& x, unsigned i, bool header, unsigned extra)
{
	unsigned want = path::count( x, d, i); if (header) feed( rawType( i, d.ev[i].type), d.ev[i]); else path::feed( *xs, d.ev[i], g);
	sym_assert( g.of( 7) == want, "reported as often as the expression matches"); sym_assert( g.n == want + extra && g.of( 5) == extra, extra ? "event of the document reported" : "nothing else reported"); hits += want;
}
static void run( bool warm)
{
	static path::Automaton* atm; atm = new path::Automaton(); d = path::Doc(); path::Expr x; x.n = 0; unsigned nev = 0; hits = 0; unsigned root = warm ? 1 : PART == 1 ? 1 + sym_choose( 2) : 0;
	if (warm) { path::Step s; s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "a"); x.step[ x.n++] = s; path::addFinal( x, 1); }
	else
	{
		for (unsigned k=0; k<STEPS; k++) { unsigned b = path::pickBit( k ? KINDS2 : KINDS); path::Step s = path::mkStep( b); x.step[ x.n++] = s; }
		unsigned fins = FINS; if (x.n) { if (x.step[ x.n-1].kind == path::COND) fins &= ~128u; } path::addFinal( x, path::pickBit( fins));
	}
	bool first = root == 2; if (first) **atm = 5; if (x.n) path::defineAll( **atm, x, 7); if (root == 1) **atm = 5;
	xs = new path::Select( atm); unsigned pend = root ? 1 : 0, hdr = warm ? 0 : PART == 0 ? 1 : sym_choose( 2);
	if (hdr)
	{
		d.add( ref::OpenTag, path::bytesName( "?xml")); check( x, d.n-1, true, pend); pend = 0; unsigned na = sym_choose( 3);
		for (unsigned k=0; k<na; k++) { d.add( ref::TagAttribName, path::freshName()); check( x, d.n-1, true, 0); d.add( ref::TagAttribValue, path::freshName( true)); check( x, d.n-1, true, 0); }
		d.add( ref::CloseTag, path::bytesName( "")); check( x, d.n-1, true, 0); sym_cover( "header");
	}
	unsigned base = d.n; 
	if (warm) { d.add( ref::OpenTag, path::bytesName( "a")); check( x, 0, false, 1); d.add( ref::Content, path::bytesName( "x")); check( x, 1, false, 0); return; }
	while (path::next( d, base + MAXN, OPTS, nev)) for (; nev; nev--)
	{
		unsigned i = d.n - nev; if (d.ev[i].type == ref::OpenTag) { check( x, i, false, pend); pend = 0; continue; }
		if (pend)
		{	// the document starts with something else: the event is reported here or with the first tag
			unsigned want = path::count( x, d, i); path::feed( *xs, d.ev[i], g); sym_assert( g.of( 7) == want && g.n == want + g.of( 5) && g.of( 5) <= 1, "reported once"); if (g.of( 5)) pend = 0; hits += want;
		}
		else check( x, i, false, 0);
	}
	sym_cover( hits ? "results" : "no result"); delete xs; delete atm;
}
int main() { run( true); run( false); return 0; }
