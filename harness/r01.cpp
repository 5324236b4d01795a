// R01: two objects of the same type used side by side do not influence each other: every interleaving of the steps gives each of them
// the results it gives alone, and what it delivered stays readable while the other one works.
// PART 0 scanners (IN/OUT encodings, 100+page; second object IN2), 1 printers, 2 header parsers, 3 selectors on one automaton, 4 automata and parsers of expressions, 5 character readers
#include "path.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/xmlpathautomatonparse.hpp"
#include <setjmp.h>
using namespace textwolf;
#ifndef SWITCHES
#define SWITCHES 2
#endif
enum {MaxRec=24}; static bool second = false, warming = false;
// symbolic byte of the first object, a fixed one in the second
static uchar anyByte( uchar fixed) { return second || warming ? fixed : sym_byte(); }
static void pick( unsigned& i, unsigned& j, unsigned n, bool warm) { i = warm ? 0 : sym_choose( n); j = (i + (warm ? 1 : sym_choose( 2))) % n; }
struct Rec { int type, err; std::size_t pos, tok; std::string txt; const char* p; std::size_t np; Rec() :type(0),err(0),pos(0),tok(0),p(0),np(0) {} void hold( const char* p_, std::size_t n) { p = p_; np = n; } };
// what was handed out by pointer is still there
static void held( const Rec& r) { if (r.p) sym_assert( r.np <= r.txt.size() && sym_memeq( r.p, r.txt.data(), r.np), "what was delivered stays while the other one works"); }
static void same( const Rec& x, const Rec& r)
{
	sym_assert( x.type == r.type && x.err == r.err, "same result as alone"); sym_assert( x.pos == r.pos && x.tok == r.tok, "same position as alone");
	sym_assert( x.txt.size() == r.txt.size() && sym_memeq( x.txt.data(), r.txt.data(), x.txt.size()), "same text as alone");
}
#if PART == 0
template <int E> struct CSOf { typedef typename CharSetOf<E>::T T; static T make( int) { return CharSetOf<E>::make(); } enum {Src=E}; };
struct Pages { typedef charset::IsoLatin T; static T make( int e) { return T( e-100); } enum {Src=ref::LATIN1}; };
#if IN >= 100
typedef Pages C1;
#else
typedef CSOf<IN> C1;
#endif
#if ITER == 1
typedef CStringIterator It; static It mkIt( const char* p, std::size_t n, MemStream*) { return It( p, n); }
#elif ITER == 2
typedef SrcIterator It; static It mkIt( const char* p, std::size_t n, MemStream*) { return It( p, n); }
#elif ITER == 4
typedef SrcIterator It; static It mkIt( const char*, std::size_t, MemStream*) { return It(); }
#else
typedef IStreamIterator It; static It mkIt( const char*, std::size_t, MemStream* s) { return It( s, 3); }
#endif
typedef XMLScanner<It,C1::T,CharSetOf<OUT>::T,std::string> Scanner;
static const char* const tmpl[] = { "<a b='~'>&#x~;</a>", "<?xml a='~'?><!D '~'><b/>", "<a>\r~&e;</a>", "<a>&~#x41;</c>" };
#if ITER == 4
enum {Starved=100};
// the document arrives in two chunks, the end of the first one suspends the scanner (a step of its own), the memory of the chunk is released with the next one
struct Chunks { jmp_buf eom; std::size_t cut; bool starved; char* mem; Chunks() :cut(0),starved(false),mem(0) {} ~Chunks() { delete [] mem; } };
#endif
struct Obj
{
#if ITER == 4
	Chunks* ch; void feed( std::size_t from, std::size_t to) { char* m = new char[ to-from ? to-from : 1]; std::memcpy( m, s.data() + from, to-from); sc->getIterator().putInput( m, to-from, to == s.size() ? 0 : &ch->eom); delete [] ch->mem; ch->mem = m; ch->starved = false; }
	int next() { if (ch->starved) feed( ch->cut, s.size()); if (setjmp( ch->eom) == 0) return sc->nextItem(); ch->starved = true; return Starved; }
	Obj() :ch(new Chunks) {}
#else
	int next() { return sc->nextItem(); }
#endif
	std::string s; MemStream* ms; Scanner* sc; Rec cur; unsigned n; Rec r[ MaxRec]; int page; Scanner::EntityMap em; bool over;
	void init( const char* p, int page_, unsigned ent)
	{
		page = page_; for (; *p; p++) if (*p == '~') { uchar b = anyByte( '6'); sym_assume( b != 0); if (C1::Src == ref::UTF8) sym_assume( b < 128); if (C1::Src == ref::LATIN1) s.push_back( (char)b); else ref::put( s, C1::Src, b); } else ref::put( s, C1::Src, (uchar)*p);
		if (ent) em["e"] = ent; ms = 0; sc = 0; n = 0;
#if ITER == 4
		ch->cut = warming ? 3 : second ? 1 + (s.size() - 2) * (1 + sym_choose( SWITCHES)) / (SWITCHES + 1) : 1 + sym_choose( s.size() - 1);
#endif
	}
	void start() { delete sc; delete ms; ms = new MemStream( s.data(), s.size()); sc = new Scanner( C1::make( page), mkIt( s.data(), s.size(), ms), em); over = false;
#if ITER == 4
		feed( 0, ch->cut);
#endif
	}
	void step( Rec& e) { e.type = next(); if (e.type >= 100) { e.hold( 0, 0); e.pos = e.tok = 0; e.err = 0; e.txt.clear(); return; } e.pos = sc->getPosition(); e.tok = sc->getTokenPosition(); e.err = 0; e.txt.clear(); if (e.type == ref::ErrorOccurred) e.err = sc->getError(); else e.txt.assign( sc->getItemPtr(), sc->getItemSize()); e.hold( e.err ? 0 : sc->getItemPtr(), e.txt.size()); over = e.type == ref::ErrorOccurred || e.type == ref::Exit; }
	void check( const Rec& e) { held( e); if (e.type && e.type < 100 && e.type != ref::ErrorOccurred) { sym_assert( sc->getItemSize() == e.txt.size() && sym_memeq( sc->getItemPtr(), e.txt.data(), e.txt.size()), "delivered text stays while the other one works"); sym_assert( sc->getPosition() == e.pos && sc->getTokenPosition() == e.tok, "position stays while the other one works"); } }
	~Obj()
	{
		delete sc; delete ms;
#if ITER == 4
		delete ch;
#endif
	}
};
static void make( Obj& a, Obj& b, bool warm)
{
	unsigned i, j; pick( i, j, sizeof(tmpl)/sizeof(*tmpl), warm);
	a.init( warm ? "<a b='c'>&lt;</a>" : tmpl[i], IN, 0xE4); second = true; b.init( warm ? "<a>&#x41;</a>" : tmpl[j], IN2, sym_choose( 2) && !warm ? 0xFC : 0);
}
#elif PART == 1
typedef XMLPrinter<CharSetOf<IN>::T,CharSetOf<OUT>::T,std::string> Printer;
struct Obj
{
	Printer* pr; std::string out; std::string ops, nm; bool sub; unsigned n, i; Rec r[ MaxRec]; bool over; Rec cur; unsigned char ok;
	void init( const char* p, bool sub_) { pr = 0; ops = p; sub = sub_; n = 0; uchar b = anyByte( '<'); sym_assume( b > 32 && b < 127); nm.clear(); ref::put( nm, OUT, b); ref::put( nm, OUT, 'k'); }
	void start() { delete pr; pr = new Printer( CharSetOf<IN>::make(), sub); out.clear(); i = 0; over = false; }
	void step( Rec& e)
	{
		bool k = false; switch (ops[i++]) { case 'H': k = pr->printHeader( 0, 0, out); break; case 'T': k = pr->printOpenTag( nm.data(), nm.size(), out); break; case 'A': k = pr->printAttribute( nm.data(), nm.size(), out); break; case 'V': k = pr->printValue( nm.data(), nm.size(), out); break; default: k = pr->printCloseTag( out); }
		e.type = k; e.err = pr->state(); e.tok = pr->lasterror() ? 1 : 0; e.pos = out.size(); e.txt = pr->lasterror() ? pr->lasterror() : ""; e.hold( pr->lasterror(), e.txt.size()); over = i == ops.size(); if (over) e.txt += out;
	}
	void check( const Rec& e) { held( e); if (i) { sym_assert( pr->state() == e.err && out.size() == e.pos, "state stays while the other one works"); sym_assert( (pr->lasterror() != 0) == (e.tok != 0) && (!e.tok || e.txt.compare( 0, std::strlen( pr->lasterror()), pr->lasterror()) == 0), "reason stays while the other one works"); } }
	~Obj() { delete pr; }
};
static void make( Obj& a, Obj& b, bool warm)
{
	static const char* const ops[] = {"TAVTC","HTATV","TCVC","VTTCC"}; unsigned i, j; pick( i, j, 4, warm); a.init( ops[i], i != 1); second = true; b.init( ops[j], j != 1);
}
#elif PART == 2
struct Obj
{
	XmlHdrParser* p; std::string s; unsigned n, i; Rec r[ MaxRec], cur; bool over;
	void init( const char* t) { p = 0; n = 0; for (; *t; t++) if (*t == '~') { uchar b = anyByte( 'e'); sym_assume( b != 0 && b < 128); s.push_back( (char)b); } else s.push_back( *t); }
	void start() { delete p; p = new XmlHdrParser; i = 0; over = false; }
	void step( Rec& e) { std::size_t k = s.size() - i < 8 ? s.size() - i : 8; p->putInput( s.data() + i, k); i += k; e.type = p->parse(); get( e); over = e.type || p->lasterror() || i >= s.size(); }
	void get( Rec& e) { e.tok = p->lasterror() ? 1 : 0; e.err = p->encoding() ? 1 : 0; e.pos = p->consumedData().size(); const char* d = p->lasterror() ? p->lasterror() : p->encoding(); e.txt = d ? d : ""; e.hold( d, e.txt.size()); }
	void check( const Rec& e) { held( e); Rec c; c.type = e.type; if (i) { get( c); same( c, e); } }
	~Obj() { delete p; }
};
static void make( Obj& a, Obj& b, bool warm)
{
	static const char* const t[] = {"<?xml encoding='~~' ?>","<?xml version='1.0' ~ncoding=\"b\"?>","<?xml standalone=~>","<a~"}; unsigned i, j; pick( i, j, 4, warm); a.init( warm ? "<?xml encoding='u'?>" : t[i]); second = true; b.init( warm ? "<?xml v" : t[j]);
}
#elif PART == 3
static path::Automaton* atm;
struct Obj
{
	path::Select* xs; path::Doc d; unsigned n, i; Rec r[ MaxRec], cur; bool over;
	void init( const char* p) { xs = 0; n = 0; for (; *p; p++) { if (*p == '/') d.add( ref::CloseTagIm, path::bytesName( "")); else if (!second && !warming) path::prefix( d, *p); else { path::Name q = path::bytesName( "q"); if (*p == '<') d.add( ref::OpenTag, q); else if (*p == 'a') d.add( ref::TagAttribName, q); else if (*p == 'v') d.add( ref::TagAttribValue, q); else path::prefix( d, *p); } } }
	void start() { delete xs; xs = new path::Select( atm); i = 0; over = false; }
	void step( Rec& e) { path::Got g; path::feed( *xs, d.ev[i++], g); e.type = g.n; e.txt.clear(); for (int k=1; k<4; k++) e.txt.push_back( (char)('0' + g.of( k))); over = i == d.n; }
	void check( const Rec&) {}
	~Obj() { delete xs; }
};
static void make( Obj& a, Obj& b, bool warm)
{
	static const char* const t[] = {"<avx>x","<<x><x>","<av/<x","<<avx>"}; path::Expr x, y; x.n = y.n = 0; path::Step s;
	x.step[ x.n++] = path::mkStep( warm ? 0 : path::pickBit( 5)); path::addFinal( x, warm ? 1 : path::pickBit( 0x42)); s.kind = path::TAG; s.desc = false; s.name = path::bytesName( "q"); s.value = path::anyName(); y.step[ y.n++] = s; if (warm || sym_choose( 2)) { s.kind = path::COND; s.value = s.name; } else s.desc = true; y.step[ y.n++] = s; path::addFinal( y, 1);
	atm = new path::Automaton; path::defineAll( **atm, x, 1); path::defineAll( **atm, y, 2); unsigned i, j; pick( i, j, 4, warm); a.init( t[i]); second = true; b.init( t[j]);
}
#elif PART == 4
// expressions given as texts to two automata in turn, then a document for each
typedef XMLPathSelectAutomatonParser<charset::UTF8,path::CS> Parser;
struct Obj
{
	Parser* atm; path::Select* xs; std::string ex[2]; path::Doc d; unsigned n, i; Rec r[ MaxRec], cur; bool over;
	void init( const char* e1, const char* e2) { atm = 0; xs = 0; n = 0; path::Name q = second || warming ? path::bytesName( "z") : path::freshName(); ex[0] = e1; ex[1] = e2; for (int k=0; k<2; k++) for (std::size_t z=0; z<ex[k].size(); z++) if (ex[k][z] == '~') ex[k][z] = q.p[0]; d.add( ref::OpenTag, q); d.add( ref::TagAttribName, path::bytesName( "k")); d.add( ref::TagAttribValue, path::bytesName( "x")); d.add( ref::Content, path::bytesName( "x")); d.add( ref::OpenTag, second || warming ? path::bytesName( "y") : path::freshName()); }
	void start() { delete xs; delete atm; atm = new Parser; xs = 0; i = 0; over = false; }
	void step( Rec& e)
	{
		e.txt.clear(); e.pos = 0;
		if (i < 2) { e.type = atm->addExpression( i+1, ex[i].data(), ex[i].size()); } else { if (!xs) xs = new path::Select( atm); path::Got g; path::feed( *xs, d.ev[ i-2], g); e.type = g.n; e.pos = g.of( 1); }
		++i; over = i == d.n + 2;
	}
	void check( const Rec&) {}
	~Obj() { delete xs; delete atm; }
};
static void make( Obj& a, Obj& b, bool warm)
{
	static const char* const t[][2] = {{"/~@k","//~()"},{"/~[@k='x']()","/*/~"},{"//k","/~[0]()"},{"/~{","~"}}; unsigned i, j; pick( i, j, 4, warm); a.init( t[i][0], t[i][1]); second = true; b.init( t[j][0], t[j][1]);
}
#else
#if IN >= 100
typedef charset::IsoLatin CS; static CS cs( int e) { return CS( e-100); } enum {SRC=ref::LATIN1};
#else
typedef CharSetOf<IN>::T CS; static CS cs( int) { return CharSetOf<IN>::make(); } enum {SRC=IN};
#endif
struct Obj
{
	char* mem; unsigned len; int page; TextScanner<CStringIterator,CS>* ts; unsigned n, i; Rec r[ MaxRec], cur; bool over;
	void init( int page_) { page = page_; ts = 0; n = 0; len = SRC == ref::UTF8 ? 5 : unitWidth( SRC)*3; mem = new char[ len]; for (unsigned k=0; k<len; k++) mem[k] = (char)(k < 4 ? anyByte( k ? 0xA4 : 0xE2) : 'x'); }
	void start() { delete ts; ts = new TextScanner<CStringIterator,CS>( cs( page), CStringIterator( mem, len)); i = 0; over = false; }
	void get( Rec& e, unsigned k) { e.pos = e.tok = 0; e.err = 0; e.type = 0; if (k == 0) { e.tok = ts->ascii(); } else if (k == 1) e.err = **ts; else e.type = ts->control(); if (k) e.pos = ts->getPosition(); }
	void step( Rec& e) { unsigned k = i % 4; if (k == 3) { ++*ts; e = Rec(); } else get( e, k); e.txt.clear(); ++i; over = i == 9; }
	void check( const Rec& e) { if (i && (i-1) % 4 != 3) { Rec c; get( c, (i-1) % 4); same( c, e); } }
	~Obj() { delete ts; delete [] mem; }
};
static void make( Obj& a, Obj& b, bool) { a.init( IN); second = true; b.init( IN2); }
#endif
static void run( bool warm)
{
	second = false; warming = warm;
	Obj* o[2] = {new Obj,new Obj}; make( *o[0], *o[1], warm);
	for (unsigned k=0; k<2; k++) { o[k]->start(); for (;;) { if (o[k]->n >= MaxRec) sym_fail( "harness: steps"); o[k]->step( o[k]->r[ o[k]->n++]); if (o[k]->over) break; } }
	o[0]->start(); o[1]->start(); unsigned at[2] = {0,0}, c = 0, sw = 0; bool both = false;
	for (;;)
	{
		if (o[c]->over) { c = 1-c; if (o[c]->over) break; }
		else if (!o[1-c]->over && sw < SWITCHES && !warm && sym_choose( 2)) { c = 1-c; sw++; }
		o[c]->step( o[c]->cur); same( o[c]->cur, o[c]->r[ at[c]++]); if (at[1-c]) { o[1-c]->check( o[1-c]->cur); both = true; }
	}
	sym_assert( at[0] == o[0]->n && at[1] == o[1]->n, "same number of steps as alone"); if (both && !warm) sym_cover( "both work");
	delete o[0]; delete o[1];
#if PART == 3
	delete atm;
#endif
}
int main() { run( true); run( false); return 0; }
