// A07: selecting from a scanned document: the expressions select what they denote in the document text.
// IN encoding of the document, ENC encoding of the automaton (and of the scanner output)
#include "path.hpp"
using namespace textwolf;
typedef XMLScanner<CStringIterator,CharSetOf<IN>::T,path::CS,std::string> Scanner;
// '~' one symbolic character
static const char* const tmpl[] = {
	"<a>~<b>~</b></a>", "<a ~='~'/>~", "<?xml v='1'?>\n<a><~>~</a>", "<a><b ~=\"x\">&am~;</b></a>", "<a~><b/></a>~", "<a b='c'~d=e>x</a>", "<!D a><a>x<~/>y</a>", "<a><!--~--><b>~<?p?></b>x</a>", "<~ b='~'>x</~>", "<a>x<![CDATA[~]]><b>&~~;</b></a>", "<a b=''>x<b ~=\"\"/></a>",
};
struct Sel { path::Expr x; path::Automaton atm; path::Select* xs; };
static path::Step tagStep( char c, bool desc) { path::Step s; s.kind = path::TAG; s.desc = desc; char t[2] = {c,0}; s.name = c ? path::bytesName( t) : path::anyName(); s.value = path::anyName(); return s; }
static void run( bool warm)
{
	static ::Doc d; d = ::Doc(); const char* p = warm ? "<a b='c'>&lt;&#x41;<b>t</b></a>" : tmpl[ sym_choose( sizeof(tmpl)/sizeof(*tmpl))];
	for (; *p; p++) if (*p == '~') { uchar b = sym_byte(); sym_assume( b != 0); if (IN == 0) sym_assume( b < 128); d.add( b); } else d.add( (uchar)*p);
	Source src( d.c, d.n, IN); ref::Scan r; r.scan( d.c, d.n);
	for (u32 i=0; i<r.nev; i++) for (u32 k=0; k<r.ev[i].len; k++) sym_assume( r.ev[i].txt[k] < 0x110000u && r.ev[i].txt[k] - 0xD800u >= 0x800u && r.ev[i].txt[k] != 0);
	// the expression
	path::Expr x; x.n = 0; x.fdesc = false; x.fname = path::anyName(); x.fin = path::EVENT; unsigned e = warm ? 3 : sym_choose( 11);
	switch (e)
	{
		case 0: x.step[ x.n++] = tagStep( 'a', false); x.fin = path::CONTENT; break; case 1: x.step[ x.n++] = tagStep( 'b', true); x.fin = path::CONTENT; break; case 2: x.step[ x.n++] = tagStep( 'a', false); x.step[ x.n++] = tagStep( 'b', false); break; case 3: x.fin = path::CONTENT; x.fdesc = true; break;
		case 4: x.step[ x.n++] = tagStep( 0, true); break; case 5: x.step[ x.n++] = tagStep( 'a', false); x.fin = path::ATTRIB; x.fname = path::bytesName( "b"); break; case 6: x.fin = path::ATTRIB; x.fdesc = true; break; case 7: x.step[ x.n++] = tagStep( 0, false); x.fin = path::CLOSE; break;
		case 8: { path::Step s = tagStep( 'b', false); s.kind = path::COND; s.value = path::bytesName( "c"); x.step[ x.n++] = tagStep( 'a', false); x.step[ x.n++] = s; x.fin = path::CONTENT; break; }
		case 9: x.step[ x.n++] = tagStep( 0, false); x.step[ x.n++] = tagStep( 0, false); x.fin = path::CONTENT; break; case 10: x.step[ x.n++] = tagStep( 'a', false); x.fin = path::CONTENT; x.fdesc = true; break;
	}
	path::Automaton* atm = new path::Automaton(); path::defineAll( **atm, x, 7); path::Select* xs = new path::Select( atm); Scanner sc( CharSetOf<IN>::make(), CStringIterator( src.mem, src.size));
	path::Doc t; unsigned hits = 0, how = warm ? 0 : sym_choose( 2); Scanner::iterator it, end; if (how == 0) { it = sc.begin(); end = sc.end(); }
	for (u32 k=0; k<r.nev && t.n < path::MAXE; k++)
	{
		const ref::Ev& v = r.ev[k]; int ty = how == 0 ? it->type() : sc.nextItem(); sym_assert( ty == v.type, "element type"); if (v.type == ref::ErrorOccurred || v.type == ref::Exit) break;
		std::string s; for (u32 i=0; i<v.len; i++) ref::put( s, ENC, v.txt[i]); bool hdr = v.type >= ref::HeaderStart && v.type <= ref::HeaderEnd; int nt = v.type == ref::HeaderStart ? ref::OpenTag : v.type == ref::HeaderEnd ? ref::CloseTag : v.type == ref::HeaderAttribName ? ref::TagAttribName : v.type == ref::HeaderAttribValue ? ref::TagAttribValue : v.type; (void)hdr;
		path::Name nm = path::bytesName( s); if (nt == ref::OpenTag || v.len == 0) {} t.add( nt, nm); unsigned got = 0;
		path::Select::iterator i = how == 0 ? xs->push( it->type(), it->content(), it->size()) : xs->push( path::et( ty), sc.getItemPtr(), sc.getItemSize()), e = xs->end(); for (; i != e; ++i) { sym_assert( *i == 7, "type"); got++; }
		unsigned want = path::count( x, t, t.n-1); sym_assert( got == want, "selected what the expression denotes in the document"); hits += want; if (how == 0) ++it;
	}
	if (!warm) sym_cover( hits ? "selected" : "nothing selected"); delete xs; delete atm;
}
int main() { run( true); run( false); return 0; }
