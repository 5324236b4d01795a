// A05: the state of the selector is restored when an element is closed, whatever way the results are iterated; close tags without open tag do no harm;
// a copied or assigned selector continues like its origin.
// PART 0: ways of iteration, 1: copies, 2: an inserted balanced sequence of elements makes no difference for the elements following
#include "path.hpp"
using namespace textwolf;
#ifndef PREFIX
#define PREFIX ""
#endif
static void run( bool warm)
{
	path::Expr x; x.n = 0;
	if (warm) { path::Step s; s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "a"); s.value = path::anyName(); x.step[ x.n++] = s; path::addFinal( x, 1); }
	else
	{
		unsigned n = 1 + (STEPS > 1 ? sym_choose( STEPS) : 0); for (unsigned k=0; k<n; k++) x.step[ x.n++] = path::mkStep( path::pickBit( KINDS));
		path::addFinal( x, path::pickBit( FINS));
	}
	path::Automaton atm; path::defineAll( *atm, x, 7);
	path::Select xs( &atm); path::Doc d; path::Got g, h; unsigned nev = 0, hits = 0;
	if (warm) { d.add( ref::OpenTag, path::bytesName( "a")); path::feed( xs, d.ev[0], g); d.add( ref::Content, path::bytesName( "x")); path::feed( xs, d.ev[1], g); return; }
#if PART == 0
	unsigned style = sym_choose(3);
	for (const char* p = PREFIX; *p; p++) { path::prefix( d, *p); path::feed( xs, d.ev[ d.n-1], g, style); sym_assert( g.n == path::count( x, d, d.n-1), "same results for every way of iteration"); }
	while (path::next( d, MAXN, OPTS, nev))
		for (; nev; nev--) { unsigned i = d.n - nev; path::feed( xs, d.ev[i], g, style); sym_assert( g.n == path::count( x, d, i), "same results for every way of iteration"); if (g.n && i && (d.ev[i-1].type == ref::CloseTag || d.ev[i-1].type == ref::CloseTagIm)) sym_cover( "result behind a closed element"); }
#elif PART == 1
	// copied (or assigned) at any point, both continue
	path::Select* cp = 0; path::Automaton other; (*other)[ "zz"] = 3; const char* p = PREFIX; unsigned how = sym_choose(2);
	for (;;)
	{
		if (*p) { path::prefix( d, *p++); nev = 1; } else if (!path::next( d, MAXN, OPTS, nev)) break;
		for (; nev; nev--)
		{
			unsigned i = d.n - nev; bool had = cp != 0;
			if (!cp && !*p && sym_choose(2)) { if (how) cp = new path::Select( xs); else { cp = new path::Select( &other); path::Got q; path::Ev e; e.type = ref::OpenTag; e.txt = path::bytesName( "y"); path::feed( *cp, e, q); *cp = xs; } }
			if (cp) { path::feed( *cp, d.ev[i], h); sym_assert( h.n == path::count( x, d, i), "the copy continues like its origin"); if (h.n && had) sym_cover( "result of the copy"); }
			path::feed( xs, d.ev[i], g); sym_assert( g.n == path::count( x, d, i), "the origin is not disturbed by the copy");
		}
	}
	delete cp;
#else
	// with and without a balanced sequence of elements (depth and number of closed elements chosen)
	path::Select ys( &atm); path::Doc f; const char* p = PREFIX; bool ins = false;
	for (;;)
	{
		if (*p) { path::prefix( d, *p++); nev = 1; } else if (!path::next( d, MAXN, OPTS, nev)) break;
		for (; nev; nev--)
		{
			unsigned i = d.n - nev;
			if (!ins && !*p && nev == 1 && !d.inTag && i && d.ev[i].type != ref::TagAttribValue && sym_choose(2))
			{
				ins = true; unsigned depth = 1 + sym_choose( 3); path::Ev e;
				for (unsigned k=0; k<depth; k++) { e.type = ref::OpenTag; e.txt = path::freshName(); path::feed( ys, e, h); if (k == 0 && (KINDS & 0xF0)) { e.type = ref::TagAttribName; e.txt = path::freshName(); path::feed( ys, e, h); e.type = ref::TagAttribValue; e.txt = path::freshName( true); path::feed( ys, e, h); } }
				for (unsigned k=0; k<depth; k++) { e.type = ref::Content; e.txt = path::bytesName( "x"); path::feed( ys, e, h); e.type = k ? ref::CloseTag : ref::CloseTagIm; e.txt = path::bytesName( ""); path::feed( ys, e, h); }
			}
			path::feed( xs, d.ev[i], g); path::feed( ys, d.ev[i], h); sym_assert( g.n == h.n && g.of( 7) == h.of( 7), "same results after elements that are closed"); if (ins) hits += g.n;
		}
	}
	if (hits) sym_cover( "result after the inserted elements");
#endif
}
int main() { run( true); run( false); return 0; }
