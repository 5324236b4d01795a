// Independent evaluator of path expressions on the tree of the elements, and generators of expressions and documents.
#pragma once
#include "scan.hpp"
#ifndef ENC
#define ENC 0
#endif
#ifndef NLEN
#define NLEN 1
#endif
namespace path {
// a fixed start of the document: '<' open tag, 'x' content, '>' close tag, 'a' attribute
static void prefix( Doc& d, char c);
typedef CharSetOf<ENC>::T CS;
typedef textwolf::XMLPathSelectAutomaton<CS> Automaton;
typedef textwolf::XMLPathSelect<CS> Select;
#ifndef MAXELEM
#define MAXELEM 24
#define MAXGOT 64
#endif
enum {MAXE=MAXELEM, MAXS=4};
// a name or value: exact bytes for the document (not terminated), terminated copy for the programming interface
struct Name { const char* p; unsigned n; const char* z; bool any; u32 cp[ NLEN]; unsigned ncp; };
static Name bytesName( const std::string& s)
{
	Name r; r.any = false; r.ncp = 0; r.n = s.size(); char* d = new char[ r.n ? r.n : 1]; std::memcpy( d, s.data(), r.n); r.p = d;
	unsigned t = unitWidth( ENC); char* z = new char[ r.n + t]; std::memcpy( z, s.data(), r.n); std::memset( z + r.n, 0, t); r.z = z; return r;
}
static Name bytesName( const char* t) { std::string s; for (; *t; t++) ref::put( s, ENC, (uchar)*t); return bytesName( s); }
static Name anyName() { Name r; r.p = r.z = 0; r.n = 0; r.ncp = 0; r.any = true; return r; }
// a character of a name (VALUE: of an attribute value)
static u32 nameChar( bool value)
{
#ifdef WIDECH
	uchar k = sym_byte(), b = sym_byte(); if (sym_choose(2)) { u32 c = ((u32)k << 8) | b; sym_assume( c >= 0x80 && (c < 0xD800 || c >= 0xE000) && c < 0xFFFE && (ENC != ref::LATIN1 || c < 0x100)); return c; }
#else
	uchar b = sym_byte();
#endif
	if (value) sym_assume( b >= 0x20 && b < 0x7F && b != '&');
	else sym_assume( b > 0x20 && b < 0x7F && !ref::special( b) && b != '*' && b != '~' && b != '(' && b != ')' && b != '{' && b != '}' && b != '@' && b != ',' && b != ';' && b != ':');
	return b;
}
static Name freshName( bool value=false)
{
	unsigned n = 1; if (value || NLEN > 1) n = value ? sym_choose( NLEN+1) : 1 + sym_choose( NLEN);
	std::string s; u32 cp[ NLEN]; for (unsigned i=0; i<n; i++) ref::put( s, ENC, cp[i] = nameChar( value));
	Name r = bytesName( s); r.ncp = n; for (unsigned i=0; i<n; i++) r.cp[i] = cp[i]; return r;
}
struct Memo { const char* a; const char* b; bool r; }; static Memo memo[ 256]; static unsigned nmemo = 0;
static bool eq( const Name& pat, const Name& x)
{
	if (pat.any || pat.p == x.p) return true; if (pat.n != x.n) return false; if (pat.n == 0) return true;
	for (unsigned i=0; i<nmemo; i++) if (memo[i].a == pat.p && memo[i].b == x.p) return memo[i].r;
	bool r = true; for (unsigned i=0; r && i<pat.n; i++) r = sym_decide( pat.p[i] == x.p[i]);
	if (nmemo < 256) { memo[nmemo].a = pat.p; memo[nmemo].b = x.p; memo[nmemo++].r = r; }
	return r;
}
enum StepKind {TAG,COND,HAS}; enum FinalKind {EVENT,CONTENT,ATTRIB,CLOSE};
struct Step { int kind; bool desc; Name name, value; };
struct Expr { Step step[ MAXS]; unsigned n; int fin; bool fdesc; Name fname; };
struct Ev { int type; Name txt; int elem; };		// elem: index of the open tag event of the element the event belongs to, -1 for the root
struct Doc
{
	Ev ev[ MAXE]; int parent[ MAXE]; unsigned n; int cur; bool inTag;
	Doc() :n(0),cur(-1),inTag(false) {}
	const Ev& add( int type, const Name& txt)
	{
		Ev& e = ev[ n]; e.type = type; e.txt = txt;
		if (type == ref::OpenTag) { parent[n] = cur; cur = n; inTag = true; } else if (type != ref::TagAttribName && type != ref::TagAttribValue) inTag = false;
		e.elem = cur; if ((type == ref::CloseTag || type == ref::CloseTagIm) && cur >= 0) cur = parent[ cur];
		n++; return e;
	}
	bool within( int e, int c) const { for (; e != c; e = parent[e]) if (e < 0) return false; return true; }
	bool at( int e, int c, bool desc) const { return desc ? within( e, c) : e == c; }
};
static long* indexOut = 0;
// number of ways in which the expression denotes event i
static unsigned count( const Expr& x, const Doc& d, unsigned k, int ctx, int after, int i)
{
	if (k == x.n)
	{
		const Ev& e = d.ev[i];
		switch (x.fin)
		{
			case EVENT: return after == i;
			case CONTENT:
				if (i <= after || e.type != ref::Content || !d.at( e.elem, ctx, x.fdesc)) return 0;
				if (indexOut) { long idx = 0; for (int j=after+1; j<i; j++) if (d.ev[j].type == ref::Content && d.at( d.ev[j].elem, ctx, x.fdesc)) idx++; *indexOut++ = idx; }
				return 1;
			case ATTRIB: return i-1 > after && e.type == ref::TagAttribValue && d.at( e.elem, ctx, x.fdesc) && eq( x.fname, d.ev[i-1].txt);
			default: return i > after && (e.type == ref::CloseTag || e.type == ref::CloseTagIm) && e.elem >= 0 && d.at( e.elem, ctx, x.fdesc);
		}
	}
	const Step& s = x.step[k]; unsigned r = 0;
	if (s.kind == TAG)
	{	// only the elements around the event can be steps to it
		for (int j=d.ev[i].elem; j > after; j=d.parent[j]) if (d.at( d.parent[j], ctx, s.desc) && eq( s.name, d.ev[j].txt)) r += count( x, d, k+1, j, j, i);
		return r;
	}
	for (int j=after+1; j<=i; j++)
	{
		const Ev& e = d.ev[j];
		if (s.kind == COND) { if (e.type == ref::TagAttribValue && j-1 > after && d.at( e.elem, ctx, s.desc) && eq( s.name, d.ev[j-1].txt) && eq( s.value, e.txt)) r += count( x, d, k+1, e.elem, j, i); }
		else if (e.type == ref::TagAttribName && d.at( e.elem, ctx, s.desc) && eq( s.name, e.txt)) r += count( x, d, k+1, e.elem, j, i);
	}
	return r;
}
static unsigned count( const Expr& x, const Doc& d, int i) { return count( x, d, 0, -1, -1, i); }
static unsigned indices( const Expr& x, const Doc& d, int i, long* idx) { indexOut = idx; unsigned r = count( x, d, i); indexOut = 0; return r; }

// ---- generation: KINDS is the set of steps (bit 0 tag, 1 any tag, 2 descendant tag, 3 any descendant tag, 4 condition, 5 any attribute condition, 6 any value, 7 descendant condition, 8 has attribute)
// FINS: bit 0 event, 1 content, 2 descendant content, 3 attribute, 4 any attribute, 5 descendant attribute, 6 close, 7 descendant close
static unsigned pickBit( unsigned mask) { unsigned n = 0, k[32]; for (unsigned i=0; i<32; i++) if ((mask >> i) & 1) k[n++] = i; return n == 1 ? k[0] : k[ sym_choose( n)]; }
static Step mkStep( unsigned b)
{
	Step s; s.kind = b < 4 ? TAG : b < 8 ? COND : HAS; s.desc = b == 2 || b == 3 || b == 7; s.value = anyName();
	s.name = b == 1 || b == 3 || b == 5 ? anyName() : freshName(); if (s.kind == COND && b != 6) s.value = freshName( true); return s;
}
static void addFinal( Expr& x, unsigned b)
{
	x.fin = b == 0 ? EVENT : b < 3 ? CONTENT : b < 6 ? ATTRIB : CLOSE; x.fdesc = b == 2 || b == 5 || b == 7; x.fname = b == 3 || b == 5 ? freshName() : anyName();
}
static void noRange( Automaton::PathElement&) {}
template <class R> static void defineAll( Automaton::PathElement pe, const Expr& x, int type, R range)
{
	for (unsigned k=0; k<x.n; k++)
	{
		const Step& s = x.step[k]; if (s.desc) pe--;
		if (s.kind == TAG) pe[ s.name.z]; else if (s.kind == COND) pe( s.name.z, s.value.z); else pe( s.name.z);
	}
	if (x.fdesc) pe.forAllDescendants();
	if (x.fin == CONTENT) pe(); else if (x.fin == ATTRIB) pe( x.fname.z); else if (x.fin == CLOSE) pe.selectCloseTag();
	range( pe); pe = type;
}
static void defineAll( Automaton::PathElement pe, const Expr& x, int type) { defineAll( pe, x, type, noRange); }
// next element of a random document; false: end. OPTS bit 0 attributes, 1 content, 2 immediate close as own choice, 3 elements outside of the tree, 4 close tags without open tag, 5 empty content
static bool next( Doc& d, unsigned maxn, unsigned opts, unsigned& nev)
{
	if (d.n >= maxn) return false;
	unsigned o[8], n = 0; nev = 1; o[n++] = 0; if (opts & 2) o[n++] = 1; if (d.cur >= 0 || (opts & 16)) o[n++] = 2; if ((opts & 1) && d.inTag && d.n + 2 <= maxn) o[n++] = 3; if ((opts & 4) && d.inTag) o[n++] = 4; if (opts & 8) o[n++] = 5;
	switch (o[ sym_choose( n)])
	{
		case 0: d.add( ref::OpenTag, freshName()); break;
		case 1: d.add( ref::Content, bytesName( (opts & 32) && sym_choose(2) ? "" : "x")); break;
		case 2: d.add( ref::CloseTag, d.cur >= 0 ? d.ev[ d.cur].txt : freshName()); break;
		case 3: d.add( ref::TagAttribName, freshName()); d.add( ref::TagAttribValue, freshName( true)); nev = 2; break;
		case 4: d.add( ref::CloseTagIm, bytesName( "")); break;
		default: d.add( sym_choose(2) ? ref::DocAttribEnd : ref::DocAttribValue, freshName()); break;
	}
	return true;
}
static textwolf::XMLScannerBase::ElementType et( int t) { return (textwolf::XMLScannerBase::ElementType)t; }
struct Got { int t[ MAXGOT]; unsigned n; Got() :n(0) {} unsigned of( int type) const { unsigned r=0; for (unsigned i=0; i<n; i++) r += t[i] == type; return r; } };
template <class SEL> static void feed( SEL& xs, const Ev& e, Got& g, unsigned style=0)
{
	g.n = 0; typename SEL::iterator itr = xs.push( et( e.type), e.txt.p, e.txt.n), end = xs.end();
	if (style == 2) { typename SEL::iterator cp( itr); itr = cp; }
	while (itr != end) { if (g.n < MAXGOT) g.t[ g.n++] = *itr; else sym_fail( "endless results"); if (style == 0) itr++; else ++itr; }
}
static void prefix( Doc& d, char c)
{
	if (c == '<') d.add( ref::OpenTag, freshName()); else if (c == 'x') d.add( ref::Content, bytesName( "x")); else if (c == '>') d.add( ref::CloseTag, d.ev[ d.cur].txt); else if (c == 'a') d.add( ref::TagAttribName, freshName()); else d.add( ref::TagAttribValue, freshName( true));
}
}
