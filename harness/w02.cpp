// W02: the printer refuses calls that do not fit the state (unchanged output and state) and gives balanced tags.
#ifdef LONG	// up to LONG elements open at the start
#define MAXDOC 20000
#define MAXEV 1200
#define MAXPOOL 20000
#else
#define LONG 0
#endif
#include "scan.hpp"
#include "textwolf/xmlprinter.hpp"
using namespace textwolf;
#ifndef NOPS
#define NOPS 5
#endif
#ifndef NOPK
#define NOPK 8
#endif
typedef XMLPrinter<charset::UTF8,charset::UTF8,std::string> Printer;
static char sname[2] = "a", sval[2] = "v"; static const char* const names[] = {sname,"bcdefghijklmnopqrstuvwxyz"};
// the reason a printer that just reached this state names for refusing a call
static const char* reason( unsigned op, unsigned v, int st, bool open)
{
	Printer p( st != Printer::Init); std::string b; 
	if (st == Printer::TagElement || st == Printer::TagAttribute || open) { p.printOpenTag( "q", 1, b); if (st == Printer::Content) p.printValue( "q", 1, b); } if (st == Printer::TagAttribute) p.printAttribute( "q", 1, b);
	switch (op) { case 0: p.printHeader( 0, 0, b); break; case 1: p.printDoctype( "r", v & 1 ? "p" : 0, v & 2 ? "s" : 0, b); break; case 2: p.printOpenTag( "a", 1, b); break; case 3: p.printAttribute( "a", 1, b); break; case 4: p.printValue( "v", 1, b); break; default: p.printCloseTag( b); break; }
	return p.lasterror();
}
int main()
{
	{ XMLPrinter<charset::UTF8,charset::UTF8,std::string> w( true); std::string o; w.printOpenTag( "a", 1, o); w.printValue( "v", 1, o); w.printCloseTag( o); XMLScanner<CStringIterator,charset::UTF8,charset::UTF8,std::string> s( CStringIterator( o.c_str(), o.size())); s.nextItem(); } // static tables
	sname[0] = (char)sym_byte(); sym_assume( ref::plain( (uchar)sname[0])); sval[0] = (char)sym_byte(); sym_assume( (uchar)sval[0] >= 32 && (uchar)sval[0] < 127);
	bool sub = sym_choose( 2); Printer* pr = new Printer( sub); std::string buf; 
	// reference: state of the document
	enum {Init,Content,Attr,Elem} st = sub ? Content : Init; unsigned stack[ NOPS+1+LONG], sp = 0; struct { int type; unsigned name; } ex[ 6*NOPS+10+2*LONG]; unsigned n = 0, hdr = 0;
	if (LONG) { if (!sub) { sym_assert( pr->printHeader( 0, 0, buf), "header"); hdr = 1; } for (unsigned d=scaled( LONG), k=0; k<d; k++) { unsigned nm = k % 3 == 1; sym_assert( pr->printOpenTag( names[nm], std::strlen( names[nm]), buf), "open tag"); st = Elem; stack[ sp++] = nm; ex[n].type = ref::OpenTag; ex[n++].name = nm; if (k % 5 == 4) { sym_assert( pr->printValue( "v", 1, buf), "value"); st = Content; } } }
	for (unsigned k=0; k<NOPS; k++)
	{
		static const char* const opn[] = {"header","doctype","open tag","attribute","value","close tag","copy","reset"};
		unsigned op = sym_choose( NOPK), dv = 0, nm = (op == 2 || op == 3) ? sym_choose( 2) : 0; std::size_t before = buf.size(); int ost = pr->state(); bool ok = false, want = false; std::string old( buf);
		switch (op)
		{
			case 0: ok = pr->printHeader( "UTF-8", sym_choose( 2) ? "no" : 0, buf); want = st == Init; if (want) { st = Content; hdr = 1; } break;
			case 1: { unsigned v = dv = k < 2 ? sym_choose( 4) : 2; ok = pr->printDoctype( "r", v & 1 ? "p" : 0, v & 2 ? "s" : 0, buf); want = st == Content && sp == 0 && v != 1; if (want) { ex[n].type = ref::DocAttribValue; ex[n++].name = 0; ex[n].type = ref::DocAttribValue; ex[n++].name = 1; if (v) { ex[n].type = ref::DocAttribValue; ex[n++].name = v == 3 ? 3 : 2; if (v & 1) { ex[n].type = ref::DocAttribValue; ex[n++].name = 4; } ex[n].type = ref::DocAttribValue; ex[n++].name = 5; } ex[n].type = ref::DocAttribEnd; ex[n++].name = 0; } } break;
			case 2: ok = pr->printOpenTag( names[nm], std::strlen( names[nm]), buf); want = st == Content || st == Elem; if (want) { st = Elem; stack[ sp++] = nm; ex[n].type = ref::OpenTag; ex[n++].name = nm; } break;
			case 3: ok = pr->printAttribute( names[nm], std::strlen( names[nm]), buf); want = st == Elem; if (want) { st = Attr; ex[n].type = ref::TagAttribName; ex[n++].name = nm; } break;
			case 4: ok = pr->printValue( sval, 1, buf); want = st != Init; if (want) { if (st == Attr) { st = Elem; ex[n].type = ref::TagAttribValue; ex[n++].name = 0; } else st = Content; } break;
			case 5: ok = pr->printCloseTag( buf); want = sp > 0 && (st == Content || st == Elem); if (want) { if (st == Elem) { ex[n].type = ref::CloseTagIm; ex[n++].name = 0; } else { ex[n].type = ref::CloseTag; ex[n++].name = stack[ sp-1]; } --sp; st = Content; } break;
			case 6: { Printer* c; unsigned how = sym_choose( 2); if (how) { c = new Printer( !sub); std::string o; c->printHeader( 0, 0, o); c->printOpenTag( "zzz", 3, o); *c = *pr; } else c = new Printer( *pr); delete pr; pr = c; ok = want = true; sym_cover("copy"); } break;
			case 7: sub = sym_choose( 2); pr->reset( sub); st = sub ? Content : Init; sp = 0; n = 0; hdr = 0; buf.clear(); ok = want = true; sym_assert( pr->lasterror() == 0, "no reason of a refusal after a reset"); before = 0; old.clear(); ost = pr->state(); break;
		}
		if (want && op < 6) sym_cover( opn[op]); sym_assert( ok == want, want ? "call that fits is accepted" : "call that does not fit is refused");
		if (!ok) { sym_cover( "refused"); const char* why = reason( op, dv, ost, sp > 0); sym_assert( pr->lasterror() && why && !std::strcmp( why, pr->lasterror()), "refused call names its reason"); sym_assert( buf.size() == before && buf == old, "refused call leaves the output unchanged"); sym_assert( (int)pr->state() == ost, "refused call leaves the state unchanged"); }
		else if (op < 6) sym_assert( buf.size() > before, "accepted call prints something"); 
		sym_assert( pr->state() == (st == Init ? Printer::Init : st == Content ? Printer::Content : st == Attr ? Printer::TagAttribute : Printer::TagElement), "state");
	}
	// complete the document and read it with the reference scanner
	if (st == Attr) { sym_assert( pr->printValue( "w", 1, buf), "value"); ex[n].type = ref::TagAttribValue; ex[n++].name = 1; st = Elem; }
	while (sp) { sym_assert( pr->printCloseTag( buf), "close tag of every open tag"); if (st == Elem) { ex[n].type = ref::CloseTagIm; ex[n++].name = 0; } else { ex[n].type = ref::CloseTag; ex[n++].name = stack[ sp-1]; } --sp; st = Content; }
	sym_assert( !pr->printCloseTag( buf), "no close tag without open tag");
	enum {MaxLen=LONG ? 19000 : 900}; u32 c[ MaxLen]; u32 len = buf.size(); if (len + 3 > MaxLen) sym_fail("harness: document"); 
	u32 skip = 0; if (sub || len == 0 || buf[0] != '<') { c[0] = '<'; c[1] = 'Z'; c[2] = '>'; skip = 3; }	// a sub document has no start
	for (u32 i=0; i<len; i++) c[ skip+i] = (uchar)buf[i]; ref::Scan r; r.scan( c, skip+len); u32 e = skip ? 1 : 0;
	if (hdr) { static const int h[] = {ref::HeaderStart,ref::HeaderAttribName,ref::HeaderAttribValue,ref::HeaderAttribName,ref::HeaderAttribValue}; for (u32 i=0; i<5; i++) sym_assert( r.ev[ e++].type == h[i], "header"); while (r.ev[e].type == ref::HeaderAttribName || r.ev[e].type == ref::HeaderAttribValue) e++; sym_assert( r.ev[ e++].type == ref::HeaderEnd, "header end"); }
	for (u32 i=0; i<n; i++)
	{
		while (r.ev[e].type == ref::Content) e++;
		sym_assert( r.ev[e].type == ex[i].type, "tags are balanced in the document"); 
		static const char* const dt[] = {"DOCTYPE","r","SYSTEM","PUBLIC","p","s"}; const char* t = ex[i].type == ref::CloseTagIm || ex[i].type == ref::DocAttribEnd ? "" : ex[i].type == ref::DocAttribValue ? dt[ ex[i].name] : ex[i].type == ref::TagAttribValue ? (ex[i].name ? "w" : sval) : names[ ex[i].name]; bool eq = r.ev[e].len == (t == sname || t == sval ? 1 : std::strlen( t)); for (u32 q=0; q<r.ev[e].len && eq; q++) eq = r.ev[e].txt[q] == (uchar)t[q]; sym_assert( eq, "name in the document"); e++;
	}
	while (r.ev[e].type == ref::Content) e++;
	sym_assert( r.ev[e].type == ref::Exit, "document is complete"); delete pr;
	return 0;
}
