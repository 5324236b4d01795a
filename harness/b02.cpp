// B02: the tag stack against a model: sequence of pushes, pops, copies with symbolic contents
#include "common.hpp"
#include "textwolf/xmltagstack.hpp"
using namespace textwolf;
#ifndef NOPS
#define NOPS 4
#endif
enum {MAXD=NOPS+1,MAXL=700};
struct Item { char c[MAXL]; unsigned n; };
static void check( TagStack& s, const Item* it, unsigned d)
{
	const void* p = 0; std::size_t n = 0; bool got = s.top( p, n);
	sym_assert( s.empty() == (d == 0), "empty");
	sym_assert( got == (d > 0), "top entry available");
	if (d) { sym_assert( n == it[d-1].n, "length of the top entry"); sym_assert( sym_memeq( p, it[d-1].c, it[d-1].n), "content of the top entry"); }
}
static void drain( TagStack& s, const Item* it, unsigned d) { for (;;) { check( s, it, d); if (!d) break; s.pop(); --d; } }
#ifdef LONG
int main()
{	// many entries of lengths of all kinds, three symbolic bytes in one; copied somewhere; everything comes back
	long live = sym_heap_live();
	if (sym_choose( 2))
	{	// two long entries, three symbolic bytes in each
		unsigned n[2] = {scaled( 65537), scaled( 65537)}; char* c[2] = {longBlock( n[0]), longBlock( n[1])}; TagStack* s = new TagStack(); s->push( "abc", 3);
		for (unsigned i=0; i<2; i++) { s->push( c[i], n[i]); if (i) { TagStack* o = new TagStack( *s); delete s; s = new TagStack(); *s = *o; delete o; } else { s->push( "x", 1); s->pop(); } }
		for (unsigned i=2; i-- > 0;) { const void* p = 0; std::size_t l = 0; sym_assert( s->top( p, l) && l == n[i], "length of the top entry"); sym_assert( sym_memeq( p, c[i], l), "content of the top entry"); s->pop(); }
		const void* p = 0; std::size_t l = 0; sym_assert( s->top( p, l) && l == 3 && !std::memcmp( p, "abc", 3), "first entry"); delete s; delete [] c[0]; delete [] c[1]; sym_cover("all entries back");
	}
	else
	{
		static const unsigned mod[] = {1,9,300,1000}; unsigned n = scaled( LONG), m = mod[ sym_choose( 4)], k = n/2; struct { char* c; unsigned n; } e[ LONG]; if (m > 20 && n > 300) sym_done();
		for (unsigned i=0; i<n; i++) { e[i].n = m == 1 ? 3 : i % m + (i == k); if (i == k) e[i].c = longBlock( e[i].n); else { e[i].c = new char[ e[i].n+1]; for (unsigned j=0; j<e[i].n; j++) e[i].c[j] = (char)(i+j); } }
		TagStack* s = new TagStack(); unsigned cp = sym_choose( 3); unsigned at[] = {1,n/2,n-1};
		for (unsigned i=0; i<n; i++) { s->push( e[i].c, e[i].n); if (i == at[cp]) { TagStack* c = new TagStack( *s); delete s; s = new TagStack(); s->push( "zz", 2); *s = *c; delete c; } }
		for (unsigned i=n; i-- > 0;) { const void* p = 0; std::size_t l = 0; if (!s->top( p, l) || l != e[i].n) sym_fail("length of the top entry"); if (i == k) sym_assert( sym_memeq( p, e[i].c, l), "content of the top entry"); else if (std::memcmp( p, e[i].c, l)) sym_fail("content of the top entry"); s->pop(); }
		sym_assert( s->empty(), "empty"); delete s; for (unsigned i=0; i<n; i++) delete [] e[i].c; sym_cover("all entries back");
	}
	sym_assert( sym_heap_live() == live, "memory released");
	return 0;
}
#else
int main()
{
	static const unsigned len[7] = {1,8,0,7,250,17,600};
	static Item it[MAXD]; unsigned d = 0; long live = sym_heap_live();
	{
		TagStack* s = new TagStack();
		for (int k=0; k<NOPS; k++)
		{
			switch (sym_choose( 3)) {
			case 0: { Item& x = it[d++]; x.n = len[ sym_choose( 7)]; for (unsigned i=0; i<x.n; i++) x.c[i] = (i < 3 || i == x.n-1) ? (char)sym_byte() : (char)(i*7+d); s->push( x.c, x.n); if (x.n >= 250) sym_cover("growth"); } break;
			case 1: if (d) { s->pop(); --d; sym_cover("pop"); } else check( *s, it, d); break;
			case 2: { TagStack* c; unsigned how = sym_choose( 3); if (how == 0) c = new TagStack( *s); else { c = new TagStack(); if (how == 2) c->push( "other", 5); *c = *s; *c = *c; } check( *c, it, d); s->push( "x", 1); s->pop(); if (d) s->pop(); s->push( "yyyyyyyyyyy", 11); delete s; s = c; sym_cover("copy"); } break;
			}
			check( *s, it, d);
		}
		if (sym_choose( 2)) drain( *s, it, d); else { s->clear(); check( *s, it, 0); s->push( "a", 1); s->pop(); check( *s, it, 0); }
		delete s;
	}
	sym_assert( sym_heap_live() == live, "memory released");
	return 0;
}
#endif
