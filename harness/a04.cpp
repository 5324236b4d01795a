// A04: the text of a path expression and the programming interface define the same selection; incorrect texts are rejected.
// PART 0: texts generated from the grammar, 1: arbitrary texts, 2: names and values written with numeric character references, 3: long names
// TEXTENC encoding of the text, ENC encoding of the automaton
#include "path.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
using namespace textwolf;
#ifndef TEXTENC
#define TEXTENC ref::UTF8
#endif
#ifndef OPTS
#define OPTS 3
#endif
#ifndef MAXN
#define MAXN 4
#endif
typedef XMLPathSelectAutomatonParser<CharSetOf<TEXTENC>::T,path::CS> Parser;
struct Text
{
	u32 c[ 64]; unsigned n; unsigned blankAt, nbound; u32 blank;
	Text() :n(0),blankAt(0),nbound(0),blank(' ') {}
	void ch( u32 x) { c[ n++] = x; }
	void bound() { if (blankAt == 99) { ch( blank); ch( ' '); } else if (blankAt == 1 && !nbound && sym_choose( 2)) { ch( blank); nbound = 1; } }	// between the parts of an expression
	void tok( u32 x) { if (n) bound(); ch( x); }
	void name( const path::Name& m) { if (n) bound(); for (unsigned i=0; i<m.ncp; i++) ch( m.cp[i]); }
	void value( const path::Name& m)
	{
		bound(); unsigned q = m.ncp ? sym_choose(3) : sym_choose(2); if (q == 2) { for (unsigned i=0; i<m.ncp; i++) { sym_assume( ident( m.cp[i])); ch( m.cp[i]); } return; }
		u32 e = q ? '"' : '\''; ch( e); for (unsigned i=0; i<m.ncp; i++) { sym_assume( m.cp[i] != e); ch( m.cp[i]); } ch( e);
	}
	static bool ident( u32 c) { return c >= 128 || (c > 32 && c != 127 && !ref::special( c) && c != '*' && c != '~' && c != '(' && c != ')' && c != '{' && c != '}' && c != '@' && c != ',' && c != ';' && c != ':'); }
};
static int add( Parser& p, int type, const u32* c, unsigned n, std::size_t& size)
{
	std::string s; for (unsigned i=0; i<n; i++) ref::put( s, TEXTENC, c[i]); char* m = new char[ s.size() ? s.size() : 1]; std::memcpy( m, s.data(), s.size()); size = s.size();
	int r = p.addExpression( type, m, s.size()); delete [] m; return r;
}
static void warmup()
{
	Parser p; std::size_t k; const char* t = "/a[@b='c']//d{x,y}"; t = "//a[@b='c'][1,2]/{d,e}()"; u32 c[40]; unsigned n = 0; for (; t[n]; n++) c[n] = (uchar)t[n]; add( p, 1, c, n, k); t = "/a@*"; for (n=0; t[n]; n++) c[n] = (uchar)t[n]; add( p, 2, c, n, k); t = "/a~"; for (n=0; t[n]; n++) c[n] = (uchar)t[n]; add( p, 3, c, n, k);
	path::Select xs( &p); path::Doc d; path::Got g; d.add( ref::OpenTag, path::bytesName( "a")); path::feed( xs, d.ev[0], g); d.add( ref::Content, path::bytesName( "x")); path::feed( xs, d.ev[1], g); d.add( ref::CloseTag, path::bytesName( "a")); path::feed( xs, d.ev[2], g);
}
static void compare( Parser& p, const path::Expr* x, unsigned nx, bool ranged, long lo, long hi)
{
	path::Select xs( &p); path::Doc d; path::Got g; unsigned nev = 0, hits = 0;
	while (path::next( d, MAXN, OPTS, nev))
		for (; nev; nev--)
		{
			unsigned i = d.n - nev, want = 0; path::feed( xs, d.ev[ i], g);
			for (unsigned k=0; k<nx; k++) { unsigned all = path::count( x[k], d, i); if (ranged && all) { long idx[16]; unsigned m = path::indices( x[k], d, i, idx); all = 0; for (unsigned q=0; q<m; q++) all += idx[q] >= lo && idx[q] <= hi; } want += all; }
			sym_assert( g.n == want && g.of( 7) == want, "the text selects what it means"); hits += want;
		}
	if (hits) sym_cover( "results");
}
#if PART == 0
// KINDS, FINS as in path.hpp (without 5, 6, 8 and 7), RNG 1: with index condition, ALT 1: the last name is a list of two names
static void run()
{
	path::Expr x[2]; x[0].n = 0; Text t; bool ranged = false; long lo = 0, hi = 0x7FFFFFFF;
	t.blankAt = BLANKS == 2 ? 99 : BLANKS; if (BLANKS) { t.blank = sym_byte(); sym_assume( t.blank == ' ' || t.blank == '\t' || t.blank == '\r'); }
	unsigned n = 1 + sym_choose( STEPS); bool cond = false; path::Name alt; bool hasAlt = false;
	for (unsigned k=0; k<n; k++)
	{
		path::Step s = path::mkStep( path::pickBit( k ? KINDS : KINDS & 0xF)); bool last = k+1 == n;
		if (s.kind == path::TAG)
		{
			if (s.desc) { t.tok( '/'); t.ch( '/'); } else if (k || sym_choose( 2)) t.tok( '/');
			if (ALT && last && !s.name.any) { alt = path::freshName(); hasAlt = true; t.tok( '{'); if (sym_choose(2)) { t.name( s.name); t.tok( ','); t.name( alt); } else { t.name( alt); t.tok( ','); t.name( s.name); } t.tok( '}'); }
			else if (s.name.any) t.tok( '*'); else t.name( s.name);
			cond = false;
		}
		else
		{
			if (s.desc) { t.tok( '/'); t.ch( '/'); }
			t.tok( '['); t.tok( '@'); t.name( s.name); t.tok( '='); t.value( s.value); t.tok( ']'); cond = true;
		}
		x[0].step[ x[0].n++] = s;
	}
	unsigned fin = path::pickBit( x[0].step[ n-1].kind == path::COND ? FINS & ~128u : FINS);
	path::addFinal( x[0], fin);
	if (RNG && fin == 1)
	{
		unsigned a = sym_byte(), b = sym_byte(); sym_assume( a < 3 && b < 3); a = sym_concrete( a); b = sym_concrete( b); ranged = true; unsigned f = sym_choose( 3);
		t.tok( '['); if (sym_choose(2)) { t.tok( '0'); t.ch( '0' + a); } else t.tok( '0' + a); lo = a;
		if (f == 1) t.tok( ','); else if (f == 2) { t.tok( ','); t.tok( '0' + b); hi = b; } else hi = a;
		t.tok( ']');
	}
	bool sep = false;
	switch (fin)
	{
		case 0: break;
		case 1: case 2: if (fin == 2) { t.tok( '/'); t.ch( '/'); } else if (sym_choose( 2)) t.tok( '/'); t.tok( '('); t.tok( ')'); break;
		case 3: case 4: case 5: if (fin == 5) { t.tok( '/'); t.ch( '/'); } else if (sym_choose( 2)) t.tok( '/'); t.tok( '@'); if (x[0].fname.any) t.tok( '*'); else t.name( x[0].fname); break;
		case 6: t.tok( '~'); break;
	}
	(void)sep; (void)cond; t.bound(); if (BLANKS == 1 && !t.nbound) sym_done();
	Parser p; std::size_t size; int r = add( p, 7, t.c, t.n, size);
	sym_assert( r == 0, "a correct expression is accepted");
	if (hasAlt) { x[1] = x[0]; x[1].step[ x[1].n-1].name = alt; }
	compare( p, x, hasAlt ? 2 : 1, ranged, lo, hi);
}
#elif PART == 1
// recogniser of the grammar. 1 correct, 0 incorrect, -1 not specified
struct Rec
{
	const u32* c; unsigned n, i; bool dunno;
	bool is( u32 x) { return i < n && sym_decide( c[i] == x); }
	bool blank() { return i < n && sym_decide( c[i] == ' ' || c[i] == '\t' || c[i] == '\r'); }
	void blanks() { while (blank()) i++; }
	bool id() { return i < n && sym_decide( Text::ident( c[i]) || c[i] == ':'); }
	bool name() { if (!id()) return false; while (id()) i++; return true; }
	bool num() { unsigned k = 0; while (i < n && sym_decide( c[i] >= '0' && c[i] <= '9')) { k++; i++; } return k > 0 && k <= 8; }
	bool selector()	// after '@' or at the place of a tag
	{
		if (is( '*')) { i++; return true; }
		if (is( '{')) { do { i++; blanks(); if (!name()) return false; blanks(); } while (is( ',')); if (!is( '}')) return false; i++; return true; }
		return name();
	}
	bool condition()
	{
		i++; blanks();
		if (is( '@'))
		{
			i++; blanks(); if (!name()) return false; blanks(); if (!is( '=')) return false; i++; blanks();
			if (is( '\'') || is( '"')) { u32 e = is( '"') ? '"' : '\''; i++; while (i < n && !is( e)) i++; if (i == n) return false; i++; } else if (!name()) return false;
			blanks(); if (!is( ']')) return false; i++; return true;
		}
		if (!num()) return false; blanks();
		if (is( ',')) { i++; blanks(); if (!is( ']')) { if (!num()) return false; blanks(); } }
		if (!is( ']')) return false; i++; return true;
	}
	int parse()
	{
		enum {Start,Sep,Tag,Cond} st = Start;
		if (n == 0 || blank()) return -1;
		for (; i<n; blanks())
		{
			if (is( '/')) { if (st == Sep) return 0; i++; if (is( '/')) i++; st = Sep; }
			else if (is( '[')) { if (!condition()) return 0; st = Cond; }
			else if (is( '@')) { i++; blanks(); if (!selector()) return 0; blanks(); return i == n; }
			else if (is( '(')) { i++; blanks(); if (!is( ')')) return 0; i++; blanks(); return i == n; }
			else if (is( '~')) { if (st == Sep) return 0; i++; blanks(); return i == n; }
			else { if (st == Tag || st == Cond) return 0; if (!selector()) return 0; st = Tag; }
		}
		return st == Sep ? -1 : 1;
	}
};
static void run()
{
	// templates: '~' arbitrary byte
	static const char* const tmpl[] = {
#if SET == 0
		"~~~~", "~",
#elif SET == 1
		"/a~~~~", "//~a~~~", "/*~~~", "~~/a~",
#elif SET == 2
		"/a[~~~~", "/a[@b=~~~~", "[1~~~~", "/a[1,~~~~", "/[@x='~~]", "/a[~1 , 2]~", "/a[1]~~", "/a[@b=\"c\"]~~", "/a[123456789~", "/a[ @~= 'x' ~", "/a[@a~'b']",
#elif SET == 3
		"/{~~~", "@{a~~~", "/{a,b~~", "/{a ~ b}~", "/a@~~~", "/@*~~", "/a(~~", "/a()~~", "/a~~~~()", "/a/~(~", "//(~)~",
#endif
	};
	const char* p = tmpl[ sizeof(tmpl)/sizeof(*tmpl) == 1 ? 0 : sym_choose( sizeof(tmpl)/sizeof(*tmpl))]; Text t; bool nul = false;
	for (; *p; p++) if (*p == '~') { u32 b = sym_byte(); if (TEXTENC == ref::UTF8) sym_assume( b < 128); t.ch( b); } else t.ch( (uchar)*p);
	Rec r; r.c = t.c; r.n = t.n; r.i = 0; int want = r.parse();
	for (unsigned i=0; i<t.n; i++) { if (sym_decide( t.c[i] == 0 || t.c[i] == 5 || t.c[i] == 127)) nul = true; if (i && sym_decide( t.c[i] == ':' && t.c[i-1] == ':')) { want = -1; if (!nul) sym_cover( "namespace operator"); } }
	if (nul) want = -1;
	Parser ps; std::size_t size; u32 a[] = {'/','q'}; add( ps, 3, a, 2, size);
	int pos = add( ps, 7, t.c, t.n, size);
	sym_assert( pos >= 0 && (std::size_t)pos <= size + 1, "position of the error inside of the text or directly behind it");
	if (want == 1) { sym_assert( pos == 0, "a correct expression is accepted"); sym_cover( "accepted"); }
	if (want == 0) { sym_assert( pos != 0, "an incorrect expression is rejected"); sym_cover( "rejected"); }
	if (pos)
	{
		// nothing is selected by the rejected expression
		path::Select xs( &ps); path::Got g; path::Ev e; static const int ty[] = {ref::OpenTag,ref::TagAttribName,ref::TagAttribValue,ref::Content,ref::OpenTag,ref::Content,ref::CloseTag,ref::CloseTag}; static const char* const tx[] = {"q","q","q","x","q","y","q","q"};
		for (unsigned k=0; k<8; k++) { e.type = ty[k]; e.txt = path::bytesName( tx[k]); path::feed( xs, e, g); sym_assert( g.n == (k == 0) && g.of( 3) == g.n, "a rejected expression selects nothing"); }
	}
}
#elif PART == 2
// a name written with numeric references in the programming interface matches the characters
static void run()
{
	u32 v = 0; std::string s; unsigned form = sym_choose( 3); path::Doc d; path::Got g;
	const char* lead = form == 0 ? "&#" : "&#x"; std::string z( "n"); z += lead; unsigned nd = 1 + sym_choose( NDIG);
	for (unsigned i=0; i<nd; i++) { u32 b = sym_byte(); if (form == 0) { sym_assume( b >= '0' && b <= '9'); v = v * 10 + (b - '0'); } else { sym_assume( (b >= '0' && b <= '9') || (form == 1 ? b >= 'a' && b <= 'f' : b >= 'A' && b <= 'F')); v = v * 16 + (b <= '9' ? b - '0' : form == 1 ? b - 'a' + 10 : b - 'A' + 10); } z.push_back( (char)b); }
	z += ";m"; sym_assume( v != 0 && v < 0x110000 && (v < 0xD800 || v > 0xDFFF) && v != 0xFFFE && v != 0xFFFF);
	std::string zz; for (unsigned i=0; i<z.size(); i++) ref::put( zz, ENC, (uchar)z[i]); path::Name api = path::bytesName( zz);
	ref::put( s, ENC, 'n'); ref::put( s, ENC, v); ref::put( s, ENC, 'm'); path::Name doc = path::bytesName( s);
	path::Automaton atm; bool attr = sym_choose( 2); if (attr) { path::Name a = path::freshName(); (*atm)( a.z, api.z)() = 7; path::Select xs( &atm); d.add( ref::TagAttribName, a); path::feed( xs, d.ev[0], g); d.add( ref::TagAttribValue, doc); path::feed( xs, d.ev[1], g); d.add( ref::Content, doc); path::feed( xs, d.ev[2], g); }
	else { (*atm)[ api.z] = 7; path::Select xs( &atm); d.add( ref::OpenTag, doc); path::feed( xs, d.ev[0], g); }
	sym_assert( g.n == 1, "a numeric reference stands for the character"); sym_cover( attr ? "value" : "name");
}
#else
// long names differ in the last character only
static void run()
{
	static const unsigned len[] = {255,256,1023,1024,1025,3000}; unsigned n = len[ sym_choose( 6)]; std::string s( n, 'a'); u32 x = path::nameChar( false), y = path::nameChar( false); std::string t( s);
	std::string e; for (unsigned i=0; i+1<n; i++) ref::put( e, ENC, 'a'); std::string f( e); ref::put( e, ENC, x); ref::put( f, ENC, y); path::Name api = path::bytesName( e), doc = path::bytesName( f); path::Got g; path::Doc d; d.add( ref::OpenTag, doc);
	bool viaText = sym_choose( 2); Parser p;
	if (viaText) { u32* c = new u32[ n+1]; c[0] = '/'; for (unsigned i=1; i<n; i++) c[i] = 'a'; c[n] = x; std::size_t size; sym_assert( add( p, 7, c, n+1, size) == 0, "a long name is accepted"); delete [] c; } else (*p)[ api.z] = 7;
	path::Select xs( &p); path::feed( xs, d.ev[0], g); bool same = sym_decide( x == y); sym_assert( g.n == (same ? 1u : 0u), "long names are compared completely"); sym_cover( same ? "equal" : "different");
}
#endif
int main() { warmup(); run(); return 0; }
