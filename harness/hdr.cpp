// H01, H02: header parser.  PART 0: well formed headers, all encodings; 1: arbitrary characters behind a template; 2: zero bytes; 3: every split; 4: clear and copy
#include "common.hpp"
#include "textwolf/xmlhdrparser.hpp"
using namespace textwolf;
static unsigned width, big;
static void put( std::string& d, uchar c) { for (unsigned i=0; i<width; i++) d.push_back( (char)((big ? i == width-1 : i == 0) ? c : 0)); }
static void put( std::string& d, const char* s) { while (*s) put( d, (uchar)*s++); }
static void chooseWidth() { switch (sym_choose( 5)) { case 0: width = 1; big = 0; break; case 1: width = 2; big = 0; break; case 2: width = 2; big = 1; break; case 3: width = 4; big = 0; sym_cover("4 bytes"); break; default: width = 4; big = 1; } }

// ---- reference: what the parser has to answer for a sequence of non-zero characters
enum Result {More,Done,Error};
struct Ref { const uchar* c; unsigned n, i; std::string enc; };
static bool letter( uchar c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool blank( uchar c) { return c <= 32; }
static bool odd( uchar c) { return (c|32) >= 'a' && (c|32) <= 'z' && !letter( c); }	// never true for ASCII
static Result refParse( Ref& r)
{
	#define SKIP while (r.i < r.n && blank( r.c[r.i])) ++r.i; if (r.i >= r.n) return More;
	#define NEED if (r.i >= r.n) return More;
	SKIP if (r.c[r.i] != '<') return Error; ++r.i;
	SKIP if (letter( r.c[r.i])) return Done; if (r.c[r.i] != '?') return Error; ++r.i;
	std::string t; for (;;) { NEED if (!letter( r.c[r.i])) break; t.push_back( r.c[r.i++]); }
	if (!blank( r.c[r.i]) && r.c[r.i] != '?') return Error; if (t != "xml") return Error; if (r.c[r.i] == '?') return Done; ++r.i;
	for (;;)
	{
		SKIP if (r.c[r.i] == '?') return Done; if (!letter( r.c[r.i])) return Error;
		std::string n; for (;;) { NEED if (!letter( r.c[r.i])) break; n.push_back( r.c[r.i++]); }
		if (r.c[r.i] != '=' && !blank( r.c[r.i])) return Error;
		if (n != "encoding" && n != "version" && n != "standalone") return Error;
		SKIP if (r.c[r.i] != '=') return Error; ++r.i;
		SKIP uchar q = r.c[r.i]; if (q != '"' && q != '\'') return Error; ++r.i;
		std::string v; for (;;) { NEED if (r.c[r.i] == q) break; v.push_back( r.c[r.i++]); } ++r.i;
		if (n == "encoding") r.enc = v;
	}
}
static void compare( XmlHdrParser& p, bool rt, Result res, const Ref& r)
{
	sym_assert( rt == (res == Done), "complete"); sym_assert( (p.lasterror() != 0) == (res == Error), "error");
	if (res == Error) { sym_assert( p.lasterror()[0] != 0, "error message"); sym_cover("error"); }
	else {
		const char* e = p.encoding(); 
		if (r.enc.empty()) sym_assert( e == 0 || !*e, "no encoding declared"); else sym_assert( e && strlen( e) == r.enc.size() && sym_memeq( e, r.enc.data(), r.enc.size()), "declared encoding");
		if (res == Done && !r.enc.empty()) sym_cover("encoding"); if (res == Done && r.enc.empty()) sym_cover("no encoding"); if (res == More) sym_cover("more");
	}
}
static uchar ascii() { uchar c = sym_byte(); sym_assume( c != 0 && c < 128); return c; }
int main()
{
#if PART == 0
	chooseWidth(); std::string d; static const char* const nm[3] = {"version","encoding","standalone"};
	std::string enc; unsigned first = sym_choose( 3), cnt = sym_choose( 4);
	if (sym_choose( 2)) put( d, "\n "); put( d, "<?xml");
	for (unsigned k=0; k<cnt; k++)
	{
		unsigned a = (first + k) % 3; uchar w = sym_byte(); sym_assume( w && w <= 32); put( d, w); if (k == 1) put( d, "\t"); put( d, nm[a]); if (k == 0 && sym_choose( 2)) put( d, " "); put( d, "="); if (k == 1) put( d, " ");
		uchar q = (k + first) & 1 ? '\'' : '"'; put( d, q);
		if (a == 1) { unsigned n = sym_choose( 4); for (unsigned i=0; i<n; i++) { uchar c = ascii(); sym_assume( c != q); put( d, c); enc.push_back( c); } if (n == 3) sym_cover("symbolic encoding"); }
		else put( d, a == 0 ? "1.0" : "no");
		put( d, q);
	}
	if (sym_choose( 2)) put( d, " "); 
	XmlHdrParser p; unsigned cut = TIER ? sym_choose( 3) : 0;
	if (cut) { std::string e( d, 0, d.size() * cut / 3); p.putInput( e.data(), e.size()); sym_assert( !p.parse() && !p.lasterror(), "incomplete header"); p.putInput( d.data() + e.size(), d.size() - e.size()); } else p.putInput( d.data(), d.size());
	sym_assert( !p.parse() && !p.lasterror(), "incomplete without end mark"); std::string e; put( e, "?>\n<doc>"); p.putInput( e.data(), e.size());
	sym_assert( p.parse() && !p.lasterror(), "complete header"); 
	if (enc.empty()) { sym_assert( p.encoding() == 0, "no encoding declared"); sym_cover("no encoding"); }
	else { sym_assert( p.encoding() && strlen( p.encoding()) == enc.size() && sym_memeq( p.encoding(), enc.data(), enc.size()), "declared encoding"); sym_cover("encoding"); }
	d += e; sym_assert( p.consumedData().size() == d.size() && sym_memeq( p.consumedData().data(), d.data(), d.size()), "data given back");
#elif PART == 1 || PART == 3
	// template + symbolic characters (+ tail)
	static const char* const tmpl[8] = {"","<?x","<?xml ","<?xml version ","<?xml encoding=","<?xml encoding=\"","<?xml e","<?xml version='1' "};
	static const char* const tail[2] = {"?>","ncoding='a'?>"};
	width = 1; if (PART == 1) { unsigned w = sym_choose( 3); if (w) { width = w*2; big = w & 1; } }
	unsigned t = sym_choose( 8); std::string c( tmpl[t]); for (unsigned i=0; i<NSYM; i++) { uchar x = (PART == 3 || width > 1) ? ascii() : sym_byte(); sym_assume( x != 0); c.push_back( x); } c += tail[ sym_choose( 2)];
	for (std::size_t i=0; i<c.size(); i++) sym_assume( !odd( c[i]));
	std::string d; for (std::size_t i=0; i<c.size(); i++) put( d, c[i]);
	Ref r; r.c = (const uchar*)c.data(); r.n = c.size(); r.i = 0; Result res = refParse( r);
	XmlHdrParser p; 
	#if PART == 1
	p.putInput( d.data(), d.size()); bool rt = p.parse(); compare( p, rt, res, r);
	#else
	XmlHdrParser whole; whole.putInput( d.data(), d.size()); bool wrt = whole.parse(); compare( whole, wrt, res, r);
	// one cut or byte by byte
	unsigned mode = 1 + sym_choose( (unsigned)d.size()); bool rt = false, copied = false, cp0 = sym_choose( 2) != 0; std::size_t pos = 0; 
	for (;;)
	{
		std::size_t n = mode == d.size() ? 1 : pos == 0 ? mode : d.size() - pos; if (pos + n > d.size()) n = d.size() - pos;
		p.putInput( d.data() + pos, n); pos += n; rt = p.parse();
		Ref q; q.c = (const uchar*)d.data(); q.n = pos; q.i = 0; Result qr = refParse( q);
		sym_assert( rt == (qr == Done) && (p.lasterror() != 0) == (qr == Error), "more input asked for exactly while the header is incomplete");
		if (rt || p.lasterror() || pos >= d.size()) break;
		sym_cover("split");
		if (cp0 && !copied) { copied = true; XmlHdrParser* cp = new XmlHdrParser( p); XmlHdrParser o( *cp); delete cp; p.clear(); p = o; sym_cover("copied"); }
	}
	sym_assert( rt == wrt, "same result"); compare( p, rt, res, r);
	sym_assert( (p.lasterror() == 0) == (whole.lasterror() == 0) && (!p.lasterror() || !strcmp( p.lasterror(), whole.lasterror())), "same error");
	sym_assert( p.charsConsumed() == whole.charsConsumed(), "same number of characters consumed");
	sym_assert( p.consumedData().size() == pos && sym_memeq( p.consumedData().data(), d.data(), pos), "data given back");
	#endif
#elif PART == 5 || PART == 6
	// long headers in pieces of one size
	static const char* const tmpl[] = {"5{ }<?xml version='1.0' encoding=\"a~\"?>", "4<{ }?xml{\n}version{ }={ }'1.0'{ }encoding{ }={\t}'~b'{ }?>", "5<?xml encoding='{x}~'?>", "5<?xml version=\"{1}~\" encoding='ab'?>", "3<?xml {version='1' }encoding='~b' {standalone='no' }?>", "5<?xml{ }~encoding='c'?>", "4<?xml enc{o}~", "5{ }~doc>", "3<?xml {encoding='x' }~", "6{ }<?xml version='1.0' encoding=\"a~\"?>", "6<?xml version=\"{1}~\" encoding='ab'?>"};
	chooseWidth(); const char* tp = tmpl[ sym_choose( sizeof(tmpl)/sizeof(*tmpl))]; unsigned mx = most( *tp); unsigned len = scaled( mx < LONG ? mx : LONG); if ((mx > 60000) != (len > 60000)) sym_done(); std::string c = repeated( tp+1, len); std::string d;
	for (std::size_t i=0; i<c.size(); i++) { if (c[i] == '~') { uchar x = ascii(); sym_assume( !odd( x)); c[i] = (char)x; } put( d, c[i]); }
	static const unsigned sz[] = {100000,1,2,3,64,255,256,257,1000}; unsigned k = sz[ sym_choose( sizeof(sz)/sizeof(*sz))]; if (mx > 60000 && k != 255 && k != 100000) sym_done(); XmlHdrParser p; bool rt = false; std::size_t pos = 0;
	for (;;) { std::size_t n = d.size() - pos < k ? d.size() - pos : k; p.putInput( d.data() + pos, n); pos += n; rt = p.parse(); if (rt || p.lasterror() || pos >= d.size()) break; }
	Ref q; q.c = (const uchar*)c.data(); q.n = (pos + width - 1) / width; if (big) q.n = pos / width; q.i = 0; Result res = refParse( q); compare( p, rt, res, q);
	sym_assert( p.consumedData().size() == pos && sym_memeq( p.consumedData().data(), d.data(), pos), "data given back");
	#if PART == 6
	{	// the same as fed at once, by the parser itself after clear or by a new one, and copied in between
		XmlHdrParser* w = new XmlHdrParser(); if (sym_choose( 2)) { *w = p; w->clear(); } std::size_t h = d.size()/2; w->putInput( d.data(), h); bool wr = w->parse(); XmlHdrParser* c = new XmlHdrParser( *w); delete w; w = c; if (!wr && !w->lasterror()) { w->putInput( d.data() + h, d.size() - h); wr = w->parse(); sym_cover("split"); }
		sym_assert( wr == rt && (w->lasterror() == 0) == (p.lasterror() == 0) && (!w->lasterror() || !strcmp( w->lasterror(), p.lasterror())), "same result"); sym_assert( w->charsConsumed() == p.charsConsumed(), "same number of characters consumed"); sym_assert( (w->encoding() == 0) == (p.encoding() == 0), "same encoding declared");
		if (p.encoding()) sym_assert( strlen( w->encoding()) == strlen( p.encoding()) && sym_memeq( w->encoding(), p.encoding(), strlen( p.encoding())), "same encoding"); delete w;
	}
	#endif
#elif PART == 2
	// zero bytes: four in a row are refused, fewer are ignored
	char s[7]; unsigned n = 7; uchar pat = sym_byte(); sym_assume( pat < 128); unsigned run = 0, maxrun = 0, nx = 0; std::string c;
	for (unsigned i=0; i<n; i++) { bool z = sym_decide( (pat >> i) & 1); s[i] = z ? 0 : "<?xml ?"[nx]; if (!z) c.push_back( "<?xml ?"[nx++]); }
	bool refuse = false; Ref r; unsigned upto = 0; for (unsigned i=0; i<n; i++) { run = s[i] ? 0 : run + 1; if (run >= 4) { refuse = true; break; } }
	r.c = (const uchar*)c.data(); r.n = c.size(); r.i = 0; Result res = refParse( r);
	XmlHdrParser p; bool thrown = false, rt = false; unsigned cut = sym_choose( n+1);
	try { p.putInput( s, cut); rt = p.parse(); if (!rt && !p.lasterror()) { p.putInput( s+cut, n-cut); rt = p.parse(); } } catch (const exception& e) { thrown = true; sym_assert( e.cause == throws_exception::IllegalXmlHeader, "cause of the exception"); sym_cover("refused"); }
	sym_assert( thrown == refuse, "more than three zero bytes in a row are refused and fewer are not"); if (!thrown) { compare( p, rt, res, r); sym_cover("accepted"); } (void)upto;
#else
	// clear: like new; copies of a finished parser
	width = 1; std::string d("<?xml encoding='"); for (unsigned i=0; i<NSYM; i++) d.push_back( (char)sym_byte()); 
	bool throwing = false; XmlHdrParser p; unsigned used = sym_choose( (unsigned)d.size()+1);
	try { p.putInput( d.data(), used); p.parse(); } catch (const exception&) { throwing = true; }
	XmlHdrParser cp( p); sym_assert( (cp.lasterror() == 0) == (p.lasterror() == 0) && (cp.encoding() == 0) == (p.encoding() == 0) && cp.charsConsumed() == p.charsConsumed() && cp.consumedData() == p.consumedData(), "copy has the state of its origin"); if (cp.lasterror()) sym_assert( !strcmp( cp.lasterror(), p.lasterror()), "copy has the error of its origin");
	p.clear(); if (throwing) sym_cover("clear after exception"); sym_assert( p.lasterror() == 0 && p.encoding() == 0 && p.charsConsumed() == 0 && p.consumedData().empty(), "cleared");
	std::string e( sym_choose( 2) ? "<?xml encoding=\"ab\" standalone='yes'?>" : "<root"); p.putInput( e.data(), e.size()); sym_assert( p.parse() && !p.lasterror(), "works like new after clear"); sym_assert( e[1] == 'r' ? p.encoding() == 0 : (p.encoding() && !strcmp( p.encoding(), "ab")), "encoding after clear"); sym_assert( p.consumedData() == e, "data after clear"); sym_cover("cleared");
	XmlHdrParser q; q.putInput( e.data(), e.size()); q.parse(); sym_assert( q.charsConsumed() == p.charsConsumed(), "count after clear");
#endif
	return 0;
}
