// W03: the printer writes the same bytes into every output sequence; a buffer of fixed size gets the prefix that fits.
// DOC/APP encodings of document and application
#include <iosfwd>
#include <ios>
#include <string>
#include <cstring>
#include <cstddef>
#ifdef LONG
#define SYMOUT 20000
#else
#define SYMOUT 256
#endif
namespace std {
// model of an output stream: records what is written
struct symostream
{
	char b[ SYMOUT]; unsigned n; std::streamsize wd; char fc; symostream() :n(0),wd(0),fc(' ') {}
	void ch( char c) { for (wd -= 1; wd > 0; wd--) b[ n++] = fc; wd = 0; b[ n++] = c; }
	symostream& put( char c) { b[ n++] = c; return *this; } symostream& write( const char* s, std::streamsize k) { for (std::streamsize i=0; i<k; i++) b[ n++] = s[i]; return *this; }
	symostream& flush() { return *this; } bool good() const { return true; } bool fail() const { return false; } bool bad() const { return false; } operator void*() const { return (void*)this; } bool operator!() const { return false; }
};
inline symostream& operator<<( symostream& o, char c) { o.ch( c); return o; }
inline symostream& str( symostream& o, const char* s, size_t k) { for (streamsize w=o.wd; w > (streamsize)k; w--) o.b[ o.n++] = o.fc; o.wd = 0; return o.write( s, k); }
inline symostream& operator<<( symostream& o, const string& s) { return str( o, s.data(), s.size()); }
inline symostream& operator<<( symostream& o, const char* s) { return str( o, s, strlen( s)); }
inline symostream& operator<<( symostream& o, unsigned char c) { o.ch( (char)c); return o; }
inline symostream& operator<<( symostream& o, signed char c) { o.ch( (char)c); return o; }
}
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include <iterator>
#include <algorithm>
#include <stdexcept>
#include <limits>
#include <cstring>
#include <cstdlib>
#define ostream symostream
#include "textwolf/ostreamoutput.hpp"
#undef ostream
#include "scan.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/xmlprinter.hpp"
#include <vector>
using namespace textwolf;
typedef CharSetOf<DOC>::T DocCS; typedef CharSetOf<APP>::T AppCS;
static const char* const longtmpl[] = { "3H Ta Ab V{x}* Tc V{y}~&x C C", "3Ta V{&}* C", "2{Ta }Vx~ {C }", "2Ta {Ab Vc }V~ C", "3T{n} A{m} V~ C" };
static const char* const tmpl[] = { "H Ta Ab V* Tc V~&x C C", "Ta V* V\t~ C", "H D Ta~ C", "Ta Ab V<*\r C", "Ta Tb C V~ C C V", "H H Tx V~ D A C" };
static const u32 wide[] = {0xE4, 0x20AC, 0x1F600};
struct Op { char op; std::string s; };
template <class BUF> static unsigned play( const std::vector<Op>& ops, bool hdr, BUF& buf)
{
	XMLPrinter<DocCS,AppCS,BUF> pr( CharSetOf<DOC>::make(), !hdr); unsigned ok = 0;
	for (std::size_t i=0; i<ops.size(); i++)
	{
		const std::string& s = ops[i].s; bool r = false;
		switch (ops[i].op)
		{
			case 'H': r = pr.printHeader( 0, 0, buf); break; case 'D': r = pr.printDoctype( "r", "p", "s", buf); break; case 'T': r = pr.printOpenTag( s.data(), s.size(), buf); break;
			case 'A': r = pr.printAttribute( s.data(), s.size(), buf); break; case 'V': r = pr.printValue( s.data(), s.size(), buf); break; case 'C': r = pr.printCloseTag( buf); break;
		}
		ok = ok * 2 + r;
	}
	return ok;
}
static void run( bool warm)
{
	std::vector<Op> ops; std::string text;
#ifdef LONG
	if (!warm) { const char* t = longtmpl[ sym_choose( sizeof(longtmpl)/sizeof(*longtmpl))]; unsigned mx = most( *t); text = repeated( t+1, scaled( mx < LONG ? mx : LONG)); }
#else
	if (!warm) text = tmpl[ sym_choose( sizeof(tmpl)/sizeof(*tmpl))];
#endif
	const char* p = warm ? "Ta Ab V< Tc V&x C C" : text.c_str(); bool hdr = *p == 'H';
	while (*p)
	{
		Op o; o.op = *p++; for (; *p && *p != ' '; p++) { unsigned k = *p == '*' ? NX : *p == '~' ? 1 : 0; if (!k) ref::put( o.s, APP, (uchar)*p); while (k--) { u32 c; if (APP == ref::LATIN1) c = sym_byte(); else if (SYMOUT < 1000 && o.op == 'V' && sym_choose( 2)) c = wide[ sym_choose( APP == ref::UCS2LE || APP == ref::UCS2BE ? 2 : 3)]; else { c = sym_byte(); sym_assume( c < 128); } if (SYMOUT > 1000) sym_assume( (c & ~3u) == '$' || (c & ~3u) == '<'); sym_assume( c != 0); ref::put( o.s, APP, c); } } if (*p) ++p; ops.push_back( o);
	}
	std::string want; unsigned ok = play( ops, hdr, want); unsigned kind = warm ? 4 : sym_choose( 3);
	if (kind == 0 || warm) { std::symostream so; OstreamOutput o( &so), o2( o); unsigned k2 = play( ops, hdr, sym_choose( 2) && !warm ? o2 : o); sym_assert( k2 == ok, "calls accepted"); sym_assert( so.n == want.size() && sym_memeq( so.b, want.data(), want.size()), "bytes written to the stream"); if (!warm) sym_cover( "stream"); }
	if (kind == 1 || warm) { std::vector<char> v; unsigned k2 = play( ops, hdr, v); sym_assert( k2 == ok, "calls accepted"); sym_assert( v.size() == want.size() && (v.empty() || sym_memeq( &v[0], want.data(), want.size())), "bytes appended"); if (!warm) sym_cover( "vector"); }
	if (kind == 2 || warm)
	{
		unsigned n = want.size(), d = warm ? 0 : sym_choose( 3), cap = d == 0 ? n : d == 1 ? (n ? n-1 : 0) : SYMOUT > 1000 ? (n > 256 ? 256 : n) : n/2; if (!cap) cap = 1; char* mem = new char[ cap]; { StaticBuffer b( mem, cap); unsigned k2 = play( ops, hdr, b); sym_assert( k2 == ok, "calls accepted");
		unsigned m = n < cap ? n : cap; sym_assert( b.size() == m && sym_memeq( b.ptr(), want.data(), m), "bytes in the buffer of fixed size"); sym_assert( b.overflow() == (n > cap), "overflow"); } sym_assert( mem[0] == 0 || n == 0 || mem[0] == want[0], "memory of the caller"); delete [] mem; if (!warm) sym_cover( "buffer of fixed size");
	}
	if (kind == 0) { std::symostream so; OstreamOutput o( &so); o.append( want.data(), want.size()); sym_assert( so.n == want.size() && sym_memeq( so.b, want.data(), want.size()), "block written to the stream"); }
}
int main() { run( true); run( false); return 0; }
