// B01: the fixed size buffer against a model: sequence of operations with symbolic contents
#include "common.hpp"
#include "textwolf/staticbuffer.hpp"
using namespace textwolf;
#ifndef NOPS
#define NOPS 4
#endif
struct Model
{
	uchar c[16]; unsigned n, cap; bool ovf;
	void push( uchar ch) { if (n < cap) c[n++] = ch; else ovf = true; }
};
static void check( StaticBuffer& b, const Model& m)
{
	sym_assert( b.size() == m.n, "fill size");
	sym_assert( b.overflow() == m.ovf, "overflow flag");
	sym_assert( sym_memeq( b.ptr(), m.c, m.n), "content");
	const StaticBuffer& cb = b;
	for (unsigned i=0; i<m.n; i++) { sym_assert( (uchar)cb[i] == m.c[i], "element"); sym_assert( (uchar)b.at( i) == m.c[i], "element reference"); }
	for (unsigned i=m.n; i<m.n+3; i++) {
		bool t1 = false, t2 = false; std::size_t idx = i < m.n+2 ? i : ~(std::size_t)0;
		try { (void)cb[idx]; } catch (const exception& e) { t1 = e.cause == throws_exception::DimOutOfRange; }
		try { (void)b.at( idx); } catch (const exception& e) { t2 = e.cause == throws_exception::DimOutOfRange; }
		sym_assert( t1 && t2, "read behind the filled part is refused");
	}
}
#ifdef LONG
int main()
{	// blocks and capacities around powers of two, symbolic bytes in each
	long live = sym_heap_live();
	{
		unsigned cap = scaled( LONG), n = scaled( LONG); char* b = longBlock( n); StaticBuffer* s = new StaticBuffer( cap); std::string want; bool ovf = false, by = sym_choose( 2) != 0; char first = (char)sym_byte(); s->push_back( first); want.push_back( first);
		if (by) for (unsigned i=0; i<n; i++) s->push_back( b[i]); else s->append( b, n); want.append( b, n); if (want.size() > cap) { want.resize( cap); ovf = true; }
		for (unsigned k=0; k<3; k++)
		{
			sym_assert( s->size() == want.size(), "fill size"); sym_assert( s->overflow() == ovf, "overflow flag"); sym_assert( sym_memeq( s->ptr(), want.data(), want.size()), "content"); sym_assert( (*s)[ want.size()-1] == want[ want.size()-1] && s->at( want.size()/2) == want[ want.size()/2], "element");
			bool t = false; try { (void)(*s)[ want.size()]; } catch (const exception& e) { t = e.cause == throws_exception::DimOutOfRange; } sym_assert( t, "read behind the filled part is refused");
			if (k == 0) { StaticBuffer* c = new StaticBuffer( *s); delete s; s = c; }
			else if (k == 1) { unsigned r = scaled( LONG); char f = (char)sym_byte(); s->resize( r, f); if (r > cap) r = cap; want.resize( r, f); sym_cover("resize"); }
		}
		if (ovf) sym_cover("overflow"); delete s; delete [] b;
	}
	sym_assert( sym_heap_live() == live, "memory released");
	return 0;
}
#else
int main()
{
	long live = sym_heap_live();
	Model m; m.n = 0; m.ovf = false; m.cap = 1 + sym_choose( 3); bool own = sym_choose( 2);
	char ext[8]; memset( ext, '#', sizeof(ext));
	{
		unsigned pre = 0;
		if (!own) { pre = sym_choose( 2); if (pre) { ext[2] = m.c[0] = 'p'; m.n = 1; } }
		StaticBuffer* b = own ? new StaticBuffer( m.cap) : new StaticBuffer( ext+2, m.cap, pre);
		for (int k=0; k<NOPS; k++)
		{
			switch (sym_choose( 5)) {
			case 0: { char ch = (char)sym_byte(); b->push_back( ch); m.push( ch); sym_cover("push"); } break;
			case 1: { char blk[5]; unsigned n = sym_choose( 5); sym_bytes( blk, n); b->append( blk, n); for (unsigned i=0; i<n; i++) m.push( blk[i]); sym_cover("append"); } break;
			case 2: { unsigned n = sym_choose( 5); char f = (char)sym_byte(); b->resize( n, f); if (n <= m.n) m.n = n; else while (m.n < n && m.n < m.cap) m.c[m.n++] = f; sym_cover("resize"); } break;
			case 3: b->clear(); m.n = 0; m.ovf = false; sym_cover("clear"); break;
			case 4: {	// copy, origin disturbed; the copy goes on
				StaticBuffer* c; if (sym_choose( 2)) c = new StaticBuffer( *b); else { c = new StaticBuffer( 2); c->push_back( 'z'); *c = *b; *c = *c; }
				check( *c, m); if (m.n) b->at( 0) ^= 1; b->push_back( '!'); check( *c, m);
				if (!own) { sym_assert( c->ptr() != ext+2, "copy has its own memory"); }
				delete b; b = c; sym_cover("copy"); } break;
			}
		}
		check( *b, m);
		if (m.ovf) sym_cover("overflow");
		delete b;
	}
	for (unsigned i=0; i<2; i++) sym_assert( ext[i] == '#', "memory in front of the buffer");
	for (unsigned i=2+m.cap; i<8; i++) sym_assert( ext[i] == '#', "memory behind the buffer");
	sym_assert( sym_heap_live() == live, "memory released");
	return 0;
}
#endif
