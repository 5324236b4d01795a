// A01: the selector reports the type for exactly the elements the expression denotes in the document tree, once per way to match.
// STEPS number of steps, KINDS/KINDS2 kinds of first/further steps, FINS finals, MAXN events of the document, OPTS document options
#include "path.hpp"
using namespace textwolf;
#ifndef KINDS2
#define KINDS2 KINDS
#endif
#ifndef PREFIX
#define PREFIX ""
#endif
static void run( bool warm)
{
	path::Expr x; x.n = 0; unsigned fins = FINS;
	if (warm) { path::Step s; s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "a"); x.step[ x.n++] = s; path::addFinal( x, 1); }
	else
	{
		for (unsigned k=0; k<STEPS; k++) x.step[ x.n++] = path::mkStep( path::pickBit( k ? KINDS2 : KINDS));
		if (x.step[ x.n-1].kind == path::HAS) fins &= 6; else if (x.step[ x.n-1].kind == path::COND) fins &= ~128u;
		for (unsigned k=0; k+1<x.n; k++) if (x.step[k].kind == path::HAS) sym_done();
		path::addFinal( x, path::pickBit( fins));
	}
	path::Automaton atm; path::defineAll( *atm, x, 7);
	path::Select xs( &atm); path::Doc d; path::Got g; unsigned nev = 0, hits = 0;
	if (warm) { d.add( ref::OpenTag, path::bytesName( "a")); path::feed( xs, d.ev[0], g); d.add( ref::Content, path::bytesName( "x")); path::feed( xs, d.ev[1], g); sym_assert( g.n == 1, "warm"); return; }
	for (const char* p = PREFIX; *p; p++) { path::prefix( d, *p); path::feed( xs, d.ev[ d.n-1], g); sym_assert( g.n == path::count( x, d, d.n-1), "reported as often as the expression matches"); }
	while (path::next( d, MAXN, OPTS, nev))
		for (; nev; nev--)
		{
			unsigned i = d.n - nev, want = path::count( x, d, i); path::feed( xs, d.ev[ i], g);
			sym_assert( g.n == want, "reported as often as the expression matches"); sym_assert( g.of( 7) == g.n, "reported type");
			hits += want;
		}
	if (hits > 1) sym_cover( "several results"); else if (hits) sym_cover( "one result"); else sym_cover( "no result");
}
int main() { run( true); run( false); return 0; }
