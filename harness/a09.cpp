// Large documents and automata for A01, A02, A03, A04, A05: the shape is concrete (patterns repeated n times, n around powers of two up to LONG), some names, the type and the index bounds are symbolic.
// PART 0: one expression (A01), 1: index conditions (A02), 2: many expressions (A03), 3: copies and closed elements (A05), 4: expressions of many steps (A01), 5: the same as text (A04)
#define MAXELEM 6000
#define MAXGOT 9000
#include "path.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace textwolf;
static path::Name Q, Y, K, V, X, E;
static void names( bool warm) { Q = path::bytesName( "q"); K = path::bytesName( "k"); V = path::bytesName( "v"); X = path::bytesName( "x"); E = path::bytesName( ""); Y = warm ? path::bytesName( "y") : path::freshName(); }
// q, Y open tags; x content, > close tag, ! immediate close tag, a attribute with value
static unsigned add( path::Doc& d, char c)
{
	switch (c)
	{
		case 'q': d.add( ref::OpenTag, Q); return 1; case 'Y': d.add( ref::OpenTag, Y); return 1; case 'x': d.add( ref::Content, X); return 1; case '!': d.add( ref::CloseTagIm, E); return 1;
		case '>': d.add( ref::CloseTag, d.cur >= 0 ? d.ev[ d.cur].txt : Q); return 1;
		default: d.add( ref::TagAttribName, K); d.add( ref::TagAttribValue, V); return 2;
	}
}
static int anyType() { int t = 0; sym_bytes( &t, 4); sym_assume( t > 0); return t; }
#ifndef FEW
#define FEW 0
#endif
static path::Name patName() { if (FEW) return sym_choose( 2) ? Q : Y; switch (sym_choose( 3)) { case 0: return Q; case 1: return path::freshName(); default: return path::anyName(); } }
static path::Step tagStep() { path::Step s; s.kind = path::TAG; s.desc = sym_choose( 2) != 0; s.name = patName(); s.value = path::anyName(); return s; }
static void warmUp()
{
	names( true); path::Expr x; x.n = 1; x.step[0].kind = path::TAG; x.step[0].desc = false; x.step[0].name = Q; x.step[0].value = path::anyName(); path::addFinal( x, 1);
	path::Automaton atm; path::defineAll( *atm, x, 7); path::Select xs( &atm); static path::Doc d; static path::Got g; add( d, 'q'); path::feed( xs, d.ev[0], g); add( d, 'x'); path::feed( xs, d.ev[1], g);
}
static std::string shape( const char* const* t, unsigned n) { const char* s = t[ sym_choose( n)]; unsigned m = most( *s); return repeated( s+1, scaled( m < LONG ? m : LONG)); }
#define SHAPE( T) shape( T, sizeof(T)/sizeof(*T))
struct Range { unsigned kind; int a, b; void operator()( path::Automaton::PathElement& pe) const { if (kind == 0) pe.TO( a); else if (kind == 1) pe.FROM( a); else if (kind == 2) pe.RANGE( a, b); else pe.INDEX( a); } };
int main()
{
	warmUp(); static path::Doc d; static path::Got g, h; names( false);
#if PART == 0 || PART == 3
	static const char* const tmpl[] = {"4{q}Yx>{>}Yx", "4Y{q>}x>", "4q{x}Yx>x", "4Ya{a}x!", "4q{Yx>}>x", "4{q}{>}Yx>x", "4{Yx}{>}", "4q{q!}Yax", "4q{qa!x}Yx>", "4{>}Yx>{>}Yx>", "4Y{qx}{>}x>Yx"};
	std::string s = SHAPE( tmpl); path::Expr x; x.n = 0;
	for (unsigned k=0; k<STEPS; k++) x.step[ x.n++] = tagStep();
	static const unsigned fin[] = {0,1,2,4,6,7}; unsigned f = fin[ sym_choose( FEW ? 2 : PART == 3 ? 3 : 6)]; path::addFinal( x, f); if (f == 4) x.fname = K;
	int type = anyType(); path::Automaton atm; path::defineAll( *atm, x, type); path::Select* xs = new path::Select( &atm); path::Select* other = 0; unsigned hits = 0, cp = PART == 3 ? (sym_choose( 2) ? s.size()/2 : s.size()-2) : ~0u, style = PART == 3 ? sym_choose( 3) : 0;
	for (std::size_t p=0; p<s.size(); p++)
	{
		if (p == cp) { if (style == 0) { other = xs; xs = new path::Select( *other); } else { path::Select* c = new path::Select( &atm); if (style == 2) *c = *xs; else { delete c; c = new path::Select( *xs); } delete xs; xs = c; } sym_cover( "copy"); }
		for (unsigned nev=add( d, s[p]); nev; nev--)
		{
			unsigned i = d.n - nev, want = path::count( x, d, i); path::feed( *xs, d.ev[i], g, style); sym_assert( g.n == want, "reported as often as the expression matches"); if (g.n) sym_assert( g.of( type) == g.n, "reported type"); hits += want;
			if (other) { path::feed( *other, d.ev[i], h, style); sym_assert( h.n == want, "the origin is not disturbed by the copy"); }
		}
	}
	if (hits > 1) sym_cover( "several results"); else if (hits) sym_cover( "one result"); else sym_cover( "no result"); delete xs; delete other;
#elif PART == 1
	static const char* const tmpl[] = {"4q{x}Yx>x", "4Y{q>}{x}", "4q{Yx>}x", "4Y{xq!}x", "4Y{qx}x"};
	std::string s = SHAPE( tmpl); path::Expr x; x.n = 0; path::Step st; st.kind = path::TAG; st.desc = sym_choose( 2) != 0; st.name = sym_choose( 2) ? Q : Y; st.value = path::anyName(); x.step[ x.n++] = st; path::addFinal( x, 1 + sym_choose( 2));
	unsigned kind = sym_choose( 4); int a = 0, b = 0; unsigned len = 0; for (std::size_t p=0; p<s.size(); p++) len += s[p] == 'x'; int base[] = {0,(int)len-4,252,0x7FFFFFF0}; int bi = sym_choose( 4); if (base[bi] < 0) sym_done(); a = base[bi] + (sym_byte() & 7);
	if (kind == 2) { static const int w[] = {0,1,127,255,256,5000}; int k = w[ sym_choose( 6)]; if (bi == 3) sym_done(); b = a + k; }
	path::Automaton atm; Range rg = {kind,a,b};
	path::defineAll( *atm, x, 7, rg); path::Select xs( &atm); unsigned hits = 0; bool cut = false; long idx[ 1]; std::vector<long> next; (void)idx;
	static long in[ MAXELEM]; for (unsigned i=0; i<MAXELEM; i++) in[i] = 0;	// contents so far of every context element
	for (std::size_t p=0; p<s.size(); p++)
		for (unsigned nev=add( d, s[p]); nev; nev--)
		{
			unsigned i = d.n - nev, want = 0; path::feed( xs, d.ev[i], g);
			if (d.ev[i].type == ref::Content)
				for (int c=d.ev[i].elem; c >= 0; c = d.parent[c]) { if ((d.ev[i].elem == c || x.fdesc) && (st.desc || d.parent[c] < 0) && path::eq( st.name, d.ev[c].txt)) { long k = in[c]++; bool r = sym_decide( kind == 0 ? k <= a : kind == 1 ? k >= a : kind == 2 ? k >= a && k <= b : k == a); want += r; cut |= !r; } if (!x.fdesc) break; }
			sym_assert( g.n == want, "reported if the index is in range"); hits += want;
		}
	if (hits > 1) sym_cover( "several results"); if (hits && cut) sym_cover( "some in range");
#elif PART == 2
	// many expressions: with different names below the same element, all for the same element, with a common start
	unsigned n = scaled( LONG), how = sym_choose( 4); path::Automaton atm; 
	for (unsigned k=0; k<n; k++)
	{
		char nm[6] = {(char)('a' + k % 26), (char)('a' + k / 26 % 26), (char)('a' + k / 676), 'z', 0, 0};
		if (how == 0) (*atm)[ "q"][ nm] = k+1; else if (how == 1) (*atm)--[ "q"] = k+1; else if (how == 2) (*atm)[ nm]() = k+1; else (*atm)[ "q"]( nm, "v")() = k+1;
	}
	path::Select xs( &atm); char dn[5] = {0,0,0,'z',0}; int tag = how == 1 ? 0 : -1;
	if (how != 1) { unsigned rows[] = {0,1,n/52,(n-1)/26,n/26+1}, row = rows[ sym_choose( 5)]; dn[0] = (char)sym_byte(); sym_assume( dn[0] >= 'a' && dn[0] <= 'z'); dn[1] = (char)('a' + row % 26); dn[2] = (char)('a' + row / 26); unsigned v = (unsigned)sym_concrete( dn[0]-'a') + 26*row; tag = v < n ? (int)v+1 : 0; }
	path::Name N = path::bytesName( std::string( dn, 4)), S = path::bytesName( "s"); unsigned hits = 0;
	if (how == 0) { d.add( ref::OpenTag, Q); d.add( ref::OpenTag, S); d.add( ref::CloseTag, S); d.add( ref::OpenTag, N); } else if (how == 1) { d.add( ref::OpenTag, S); d.add( ref::OpenTag, Q); } else if (how == 2) { d.add( ref::OpenTag, N); d.add( ref::Content, X); } else { d.add( ref::OpenTag, Q); d.add( ref::TagAttribName, N); d.add( ref::TagAttribValue, V); d.add( ref::Content, X); }
	for (unsigned i=0; i<d.n; i++)
	{
		path::feed( xs, d.ev[i], g);
		if (i + 1 < d.n) sym_assert( g.n == 0, "no result before");
		else if (how == 1) { sym_assert( g.n == n, "one result of every expression"); static unsigned char seen[ MAXGOT]; for (unsigned k=0; k<n; k++) seen[k] = 0; for (unsigned k=0; k<g.n; k++) { if (g.t[k] < 1 || g.t[k] > (int)n || seen[ g.t[k]-1]++) sym_fail( "every type once"); } hits += n; }
		else { sym_assert( g.n == (tag ? 1u : 0u), "only the expression that matches is reported"); if (g.n) sym_assert( g.t[0] == tag, "type of the expression"); hits += g.n; }
	}
	if (hits) sym_cover( "result");
#elif PART == 6
	// long names and values: of the same length, one longer or shorter, 256 or 65536 apart; symbolic characters in front, in the middle and at the end
	unsigned n = scaled( LONG), how = sym_choose( 3); static const int delta[] = {0,1,-1,256,-256,512,65536,-65536}; long ml = (long)n + delta[ sym_choose( 8)]; if (ml <= 0) sym_done(); unsigned m = (unsigned)ml, lo = n < m ? n : m;
	std::string a( n, 'n'), b( m, 'n'); for (unsigned i=0; i<n; i++) a[i] = (char)('a' + i % 23); for (unsigned i=0; i<m; i++) b[i] = (char)('a' + i % 23);
	unsigned at[] = {0,lo/2,lo-1}; for (unsigned k=0; k<3; k++) { char c = (char)sym_byte(), e = (char)sym_byte(); sym_assume( c >= 'a' && c <= 'z' && e >= 'a' && e <= 'z'); a[ at[k]] = c; b[ at[k]] = e; }
	bool same = n == m && sym_decide( sym_memeq( a.data(), b.data(), n));
	path::Automaton atm; if (how == 0) (*atm)[ a.c_str()] = 5; else if (how == 1) (*atm)[ "q"]( a.c_str()) = 5; else (*atm)[ "q"]( "k", a.c_str())() = 5;
	path::Select xs( &atm); path::Name B = path::bytesName( b); unsigned hits = 0;
	if (how == 0) d.add( ref::OpenTag, B); else { d.add( ref::OpenTag, Q); d.add( ref::TagAttribName, how == 1 ? B : K); d.add( ref::TagAttribValue, how == 1 ? V : B); if (how == 2) d.add( ref::Content, X); }
	for (unsigned i=0; i<d.n; i++) { path::feed( xs, d.ev[i], g); sym_assert( g.n == (i+1 == d.n && same ? 1u : 0u), "reported if the name is the same"); hits += g.n; }
	if (hits) sym_cover( "result"); else sym_cover( "no result");
#else
	// expressions of many steps on deep documents; one name of expression and document symbolic, one step for any descendant
	unsigned n = scaled( LONG), at = sym_choose( 2) ? n/2 : n, desc = sym_choose( 3); path::Automaton atm; path::Name P = path::freshName(); std::string txt; unsigned dk = desc == 1 ? 1 : desc == 2 ? n : ~0u;
#if PART == 4
	{ path::Automaton::PathElement pe = *atm; for (unsigned k=0; k<=n; k++) { if (k == dk) pe--; pe[ k == at ? P.z : Q.z]; } pe = 5; }
#else
	typedef XMLPathSelectAutomatonParser<charset::UTF8,charset::UTF8> Parser; Parser ps; for (unsigned k=0; k<=n; k++) { txt.append( k == dk ? "//" : "/"); const path::Name& m = k == at ? P : Q; txt.append( m.p, m.n); }
	sym_assert( ps.addExpression( 5, txt.c_str(), txt.size()) == 0, "expression accepted");
#endif
#if PART == 4
	path::Select xs( &atm);
#else
	XMLPathSelect<charset::UTF8> xs( &ps);
#endif
	unsigned extra = sym_choose( 2), hits = 0; sym_assume( P.p[0] != 's' && Y.p[0] != 's'); 	// more elements above the last one
	// document: the same names with 'extra' elements named 's' in front of the last one
	path::Name S = path::bytesName( "s"); bool same = path::eq( P, Y);
	for (unsigned k=0; k<=n; k++)
	{
		if (k == n) for (unsigned e=0; e<extra; e++) { path::Ev ev; ev.type = ref::OpenTag; ev.txt = S; ev.elem = 0; path::feed( xs, ev, g); sym_assert( g.n == 0, "no result before the last step"); }
		path::Ev ev; ev.type = ref::OpenTag; ev.txt = k == at ? Y : Q; ev.elem = 0; path::feed( xs, ev, g);
		unsigned want = k == n && same && (extra == 0 || desc == 2) ? 1 : 0;
		if (desc == 1 && extra && want) want = 0;
		sym_assert( g.n == want, "reported exactly at the last step"); hits += g.n;
	}
	{ path::Ev ev; ev.type = ref::OpenTag; ev.txt = Y; ev.elem = 0; path::feed( xs, ev, g); if (desc == 0) sym_assert( g.n == 0, "no result below the last step"); }
	if (hits) sym_cover( "result"); else sym_cover( "no result");
#endif
	return 0;
}
