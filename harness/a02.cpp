// A02: index conditions select the content elements with the given indices within the element matched. The bounds are symbolic.
// PART 0: one condition, 1: two conditions, 2: the condition of an expression reporting a tag
#include "path.hpp"
using namespace textwolf;
struct Range
{
	unsigned kind; int a, b;
	void pick() { kind = sym_choose(4); a = b = 0; sym_bytes( &a, 4); sym_assume( a >= 0 && a < 0x7FFFFFFF); if (kind == 2) { sym_bytes( &b, 4); sym_assume( b >= 0 && b < 0x7FFFFFFF); } }
	void operator()( path::Automaton::PathElement& pe) const { if (kind == 0) pe.TO( a); else if (kind == 1) pe.FROM( a); else if (kind == 2) pe.RANGE( a, b); else pe.INDEX( a); }
	bool has( long i) const { return kind == 0 ? i <= a : kind == 1 ? i >= a : kind == 2 ? i >= a && i <= b : i == a; }
};
#ifndef PREFIX
#define PREFIX ""
#endif
struct Ranges { Range r[2]; void operator()( path::Automaton::PathElement& pe) const { r[0]( pe); if (PART == 1) r[1]( pe); } };
static void run( bool warm)
{
	path::Expr x; x.n = 0; Ranges rg; path::Step s;
	if (warm) { s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "a"); s.value = path::anyName(); x.step[ x.n++] = s; path::addFinal( x, 1); rg.r[0].kind = rg.r[1].kind = 3; rg.r[0].a = rg.r[1].a = 0; }
	else
	{
		unsigned n = 1 + sym_choose( STEPS); for (unsigned k=0; k<n; k++) x.step[ x.n++] = path::mkStep( path::pickBit( KINDS));
#if PART == 2
		x.step[0].name = path::bytesName( "a");
#endif
		path::addFinal( x, path::pickBit( FINS)); rg.r[0].pick(); if (PART == 1) rg.r[1].pick();
	}
	path::Automaton atm; path::defineAll( *atm, x, 7, rg);
	path::Select xs( &atm); path::Doc d; path::Got g; unsigned nev = 0, hits = 0; bool cut = false;
	if (warm) { d.add( ref::OpenTag, path::bytesName( "a")); path::feed( xs, d.ev[0], g); d.add( ref::Content, path::bytesName( "x")); path::feed( xs, d.ev[1], g); return; }
#if PART == 2
	// zero based index of the element among the elements matching the last step in the same context
	for (unsigned k=0; k<2+sym_choose( 2); k++)
	{
		d.add( ref::OpenTag, path::bytesName( "a")); path::feed( xs, d.ev[ d.n-1], g); unsigned i = g.n; d.add( ref::CloseTag, path::bytesName( "a")); path::feed( xs, d.ev[ d.n-1], g);
		sym_assert( i == (unsigned)sym_decide( rg.r[0].has( k)), "index condition of an expression reporting a tag");
	}
	return;
#endif
	for (const char* p = PREFIX; *p; p++) { path::prefix( d, *p); path::feed( xs, d.ev[ d.n-1], g); }
	while (path::next( d, MAXN, OPTS, nev))
		for (; nev; nev--)
		{
			unsigned i = d.n - nev, all = path::count( x, d, i), want = 0; path::feed( xs, d.ev[ i], g);
			if (all)
			{
				// every match is one context element with its own counter: the indices of this content element in them
				long idx[ 8]; unsigned m = path::indices( x, d, i, idx); sym_assert( m == all, "oracle");
				for (unsigned k=0; k<m; k++) want += sym_decide( rg.r[0].has( idx[k]) && (PART != 1 || rg.r[1].has( idx[k])));
			}
			sym_assert( g.n == want && g.of( 7) == want, "reported if the index is in range"); hits += want; if (want < all) cut = true;
		}
	if (hits > 1) sym_cover( "several results"); if (hits && cut) sym_cover( "some in range");
}
int main() { run( true); run( false); return 0; }
