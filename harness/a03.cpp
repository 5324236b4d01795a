// A03: several expressions in one automaton do not influence each other: every type is reported exactly as often as its expression matches.
// NEXPR expressions of up to STEPS steps; SAMETYPE 1: all with the same type; RANGED 1: the first one with an index condition
#include "path.hpp"
using namespace textwolf;
#ifndef PREFIX
#define PREFIX ""
#endif
#ifndef SAMETYPE
#define SAMETYPE 0
#endif
#ifndef RANGED
#define RANGED 0
#endif
#ifndef KINDS2
#define KINDS2 KINDS
#endif
struct First { void operator()( path::Automaton::PathElement& pe) const { pe.INDEX( 0); } };
static void run( bool warm)
{
	path::Expr x[ NEXPR]; path::Automaton atm;
	for (unsigned e=0; e<NEXPR; e++)
	{
		x[e].n = 0; unsigned fins = FINS;
		if (warm) { path::Step s; s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "a"); s.value = path::anyName(); x[e].step[ x[e].n++] = s; path::addFinal( x[e], 1); }
		else
		{
			unsigned n = 1 + (STEPS > 1 ? sym_choose( STEPS) : 0);
			for (unsigned k=0; k<n; k++) x[e].step[ x[e].n++] = path::mkStep( path::pickBit( k ? KINDS2 : KINDS));
			// an earlier expression shares the first step
			if (e && x[0].step[0].kind == x[e].step[0].kind && x[0].step[0].desc == x[e].step[0].desc && x[0].step[0].name.any == x[e].step[0].name.any && x[0].step[0].value.any == x[e].step[0].value.any && sym_choose(2)) x[e].step[0] = x[0].step[0];
			if (x[e].step[ x[e].n-1].kind == path::HAS) fins &= 6; else if (x[e].step[ x[e].n-1].kind == path::COND) fins &= ~128u;
			for (unsigned k=0; k+1<x[e].n; k++) if (x[e].step[k].kind == path::HAS) sym_done();
			path::addFinal( x[e], RANGED && !e ? 1 : path::pickBit( fins));
		}
		if (RANGED && !e) path::defineAll( *atm, x[e], 1, First()); else path::defineAll( *atm, x[e], SAMETYPE ? 1 : 1 + e);
	}
	path::Select xs( &atm); path::Doc d; path::Got g; unsigned nev = 0; bool hit[ NEXPR] = {}; bool both = false;
	const char* p = warm ? "<x" : PREFIX;
	for (;;)
	{
		if (*p) { path::prefix( d, *p++); nev = 1; } else if (warm || !path::next( d, MAXN, OPTS, nev)) break;
		for (; nev; nev--)
		{
			unsigned i = d.n - nev, sum = 0, kinds = 0; path::feed( xs, d.ev[ i], g);
			for (unsigned e=0; e<NEXPR; e++)
			{
				unsigned want = path::count( x[e], d, i);
				if (RANGED && !e && want) { long idx[16]; unsigned m = path::indices( x[e], d, i, idx); want = 0; for (unsigned k=0; k<m; k++) want += idx[k] == 0; }
				sum += want; if (want) { kinds++; hit[e] = true; }
				if (!SAMETYPE && !warm) sym_assert( g.of( 1+e) == want, "every type is reported as if its expression was alone");
			}
			if (!warm) sym_assert( g.n == sum, "number of results"); if (kinds > 1) both = true;
		}
	}
	if (warm) return; if (both) sym_cover( "several expressions match the same element"); if (NEXPR > 1 && hit[0] && hit[1]) sym_cover( "several expressions match");
}
int main() { run( true); run( false); return 0; }
