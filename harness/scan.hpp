// Independent reference scanner and helpers for the scanner properties.
// The reference is written sequentially along the grammar (not as state machine) and works on characters (code points).
#pragma once
#include "common.hpp"
#include "iso.hpp"
#include <map>
#ifndef MAXDOC
#define MAXDOC 128
#define MAXEV 64
#define MAXPOOL 256
#endif
namespace ref {
enum Type {None,ErrorOccurred,HeaderStart,HeaderAttribName,HeaderAttribValue,HeaderEnd,DocAttribValue,DocAttribEnd,TagAttribName,TagAttribValue,OpenTag,CloseTag,CloseTagIm,Content,Exit};
enum Err {Ok,IllegalDocAttr,ExpOpenTag,ExpXMLTag,UnexpEOT,SyntaxToken,StringNotTerm,UndefEntity,ExpTagEnd,ExpEqual,ExpTagAttr,ExpCDATA,Internal,UnexpEOI,ExpEOL,ExpDash2};
static const char* const errText[] = {0,"illegal document attribute definition","expected open tag","expected XML tag","unexpected end of text","syntax token","string not terminated","undefined character entity","expected tag end","expected equal","expected tag attribute","expected CDATA tag","internal (illegal state)","unexpected end of input","expected end of line","expected 2nd '-' to complete marker for start of comment '<!--'"};
struct Ev { int type, err; u32 pos, endpos, len; const u32* txt; };
struct Entity { const char* name; u32 val; };
// ---- encodings, written down independently of the library
enum Enc {UTF8,UTF16LE,UTF16BE,UCS2LE,UCS2BE,UCS4LE,UCS4BE,LATIN1,LATIN2,LATIN5};
template <class S> static void unit( S& o, u32 v, unsigned n, bool be) { for (unsigned i=0; i<n; i++) o.push_back( (char)((v >> (8*(be ? n-1-i : i))) & 0xFF)); }
template <class S> static void put( S& o, int enc, u32 c);
template <class S> static void charref( S& o, int enc, u32 c) { char b[16]; unsigned n = refHex( c, b); for (unsigned i=0; i<n; i++) put( o, enc, (uchar)b[i]); }
template <class S> static void put( S& o, int enc, u32 c)
{
	switch (enc)
	{
		case UTF8:
			if (c < 0x80) o.push_back( (char)c);
			else if (c < 0x800) { o.push_back( (char)(0xC0 | (c >> 6))); o.push_back( (char)(0x80 | (c & 63))); }
			else if (c < 0x10000) { o.push_back( (char)(0xE0 | (c >> 12))); o.push_back( (char)(0x80 | ((c >> 6) & 63))); o.push_back( (char)(0x80 | (c & 63))); }
			else if (c < 0x200000) { o.push_back( (char)(0xF0 | (c >> 18))); o.push_back( (char)(0x80 | ((c >> 12) & 63))); o.push_back( (char)(0x80 | ((c >> 6) & 63))); o.push_back( (char)(0x80 | (c & 63))); }
			else if (c < 0x4000000) { o.push_back( (char)(0xF8 | (c >> 24))); for (int k=18; k>=0; k-=6) o.push_back( (char)(0x80 | ((c >> k) & 63))); }
			else { o.push_back( (char)(0xFC | (c >> 30))); for (int k=24; k>=0; k-=6) o.push_back( (char)(0x80 | ((c >> k) & 63))); }
			break;
		case UTF16LE: case UTF16BE:
			if (c < 0x10000) unit( o, c, 2, enc == UTF16BE);
			else { unit( o, 0xD800 + ((c - 0x10000) >> 10), 2, enc == UTF16BE); unit( o, 0xDC00 + ((c - 0x10000) & 0x3FF), 2, enc == UTF16BE); }
			break;
		case UCS2LE: case UCS2BE: if (c < 0x10000) unit( o, c, 2, enc == UCS2BE); else charref( o, enc, c); break;
		case UCS4LE: case UCS4BE: unit( o, c, 4, enc == UCS4BE); break;
		default: if (c < 0x100) o.push_back( (char)c); else charref( o, enc, c);
	}
}
static bool ws( u32 c) { return c != 0 && c <= 32 && c != 5; }
static bool special( u32 c) { return c == '&' || c == '<' || c == '=' || c == '>' || c == '/' || c == '!' || c == '?' || c == '\'' || c == '"' || c == '[' || c == ']'; }
static bool plain( u32 c) { return c > 32 && c < 128 && !special( c) && c != '-'; }
static bool name( u32 c) { return c >= 128 || c == 5 || c == '-' || plain( c); }
static u32 digit( u32 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
static const Entity predef[] = {{"quot",'"'},{"amp",'&'},{"apos",'\''},{"lt",'<'},{"gt",'>'},{"nbsp",' '}};
struct Scan
{
	const u32* c; u32 n; const Entity* ent; u32 nent; bool undef;
	enum {MaxEv=MAXEV,MaxPool=MAXPOOL}; Ev ev[ MaxEv]; u32 nev; u32 pool[ MaxPool]; u32 np; u32 i;
	Scan() :c(0),n(0),ent(0),nent(0),undef(false),nev(0),np(0),i(0) {}
	u32 at( u32 k) const { return k < n ? c[k] : 0; }
	u32 cur() const { return at(i); }
	void text( u32 ch) { if (np < MaxPool) pool[ np++] = ch; else sym_fail("harness: pool"); }
	// the event is complete with the character now current
	void event( int type, u32 pos, u32 from) { if (nev >= MaxEv) sym_fail("harness: events"); Ev& e = ev[ nev++]; e.type = type; e.err = 0; e.pos = pos; e.endpos = i; e.txt = pool + from; e.len = np - from; }
	bool error( int code) { if (nev >= MaxEv) sym_fail("harness: events"); Ev& e = ev[ nev++]; e.type = ErrorOccurred; e.err = code; e.pos = e.endpos = i; e.txt = 0; e.len = 0; return false; }
	bool unspecified() { undef = true; return false; }
	void skipws() { while (ws( cur())) ++i; }
	// reference: what follows '&'
	bool entity()
	{
		u32 k = i+1, cnt = 0; 
		if (at(k) == '#')
		{
			++k; u32 base = 10; if (at(k) == 'x') { base = 16; ++k; } u64 v = 0;
			for (; cnt < 16; ++k, ++cnt)
			{
				if (at(k) == ';') { if (cnt == 0 || (v >> 32)) break; text( (u32)v); i = k+1; return true; }
				u32 d = digit( at(k)); if (d >= base) break; v = v * base + d;
			}
		}
		else
		{
			char nm[16]; for (; cnt < 15 && at(k) != ';' && plain( at(k)); ++k) nm[ cnt++] = (char)at(k); nm[ cnt] = 0;
			if (at(k) == ';')
			{
				if (cnt == 0) return unspecified();
				for (u32 e=0; e<6; e++) if (!std::strcmp( predef[e].name, nm)) { text( predef[e].val); i = k+1; return true; }
				for (u32 e=0; e<nent; e++) if (!std::strcmp( ent[e].name, nm)) { text( ent[e].val); i = k+1; return true; }
				i = k; return error( UndefEntity);
			}
		}
		for (; i < k; ++i) text( cur()); return true;
	}
	// kind: 0 name, 1 content, '\'' or '"' string
	bool token( u32 kind)
	{
		bool cr = false;
		for (;;)
		{
			u32 ch = cur();
			if (ch == '&') { if (!entity()) return false; cr = false; continue; }
			if (ch == 0 || ch == '<' || (kind == 0 && !name( ch)) || (kind > 1 && ch == kind)) return true;
			if (ch == '\r') { text( '\n'); cr = true; }
			else { if (ch != '\n' || !cr) text( ch); cr = false; }
			++i;
		}
	}
	bool expect( const char* s) { for (; *s; ++s, ++i) if (cur() != (uchar)*s) return error( cur() ? SyntaxToken : UnexpEOT); return true; }
	bool until( const char* s, unsigned len) { for (;;) { if (!cur()) return error( UnexpEOT); bool m = true; for (unsigned k=0; k<len && m; k++) m = at( i+k) == (uchar)s[k]; if (m) { i += len; return true; } ++i; } }
	// attributes up to the terminator; end: '?' for the header, '/' or '>' for tags
	bool attributes( bool header)
	{
		for (;;)
		{
			skipws(); u32 ch = cur(); if (header ? ch == '?' : (ch == '>' || ch == '/')) return true;
			u32 p = i, f = np; if (!token( 0)) return false; if (!ws( cur()) && cur() != '=') return error( ExpEqual);
			event( header ? HeaderAttribName : TagAttribName, p, f); skipws(); if (cur() != '=') return error( ExpEqual);
			++i; skipws(); u32 q = cur(); bool quoted = false; if (q == '\'' || q == '"') { q = sym_concrete( q); quoted = true; } if (quoted) ++i; p = i; f = np; 
			if (!token( quoted ? q : 0)) return false;
			if (quoted) { if (cur() != q) return error( StringNotTerm); ++i; event( header ? HeaderAttribValue : TagAttribValue, p, f); if (!(ws( cur()) || (header ? cur() == '?' : (cur() == '>' || cur() == '/')))) return error( ExpTagAttr); }
			else { if (!(ws( cur()) || (header ? cur() == '?' : (cur() == '>' || cur() == '/')))) return error( ExpTagAttr); event( header ? HeaderAttribValue : TagAttribValue, p, f); }
		}
	}
	bool openTag()
	{
		u32 p = i, f = np; if (!token( 0)) return false; u32 ch = cur(); if (!ws( ch) && ch != '/' && ch != '>') return error( ExpTagAttr);
		event( OpenTag, p, f); if (ws( ch)) { if (!attributes( false)) return false; }
		if (cur() == '/') { ++i; if (ws( cur())) return unspecified(); if (cur() != '>') return error( ExpTagEnd); event( CloseTagIm, i, np); } 
		++i; return true;
	}
	bool closeTag()
	{
		u32 p = i, f = np; if (!token( 0)) return false; if (!ws( cur()) && cur() != '>') return error( ExpTagEnd);
		event( CloseTag, p, f); skipws(); if (cur() != '>') return error( ExpTagEnd); ++i; return true;
	}
	// behind "<!": sets whether white space in front of the next text is skipped
	bool decl( bool& skip)
	{
		skip = false;
		if (cur() == '[') { ++i; if (!expect( "CDATA")) return false; if (cur() != '[') return error( ExpCDATA); ++i; return until( "]]>", 3); }
		skip = true;
		if (cur() == '-')
		{
			++i; if (cur() != '-') return error( ExpDash2); ++i;
			for (;;) { u32 ch = cur(); if (!ch) return error( UnexpEOT); if (ch == '-' && at( i+1) == '-') { i += 2; if (!cur()) return error( UnexpEOT); if (cur() != '>') return unspecified(); ++i; return true; } ++i; }
		}
		for (;;)
		{
			skipws(); u32 ch = cur(), p = i, f = np;
			if (ch == '>') { ++i; event( DocAttribEnd, i, f); return true; }
			if (ch == '\'' || ch == '"') ch = sym_concrete( ch);
			if (ch == '\'' || ch == '"') { ++i; ++p; if (!token( ch)) return false; if (cur() != ch) return error( StringNotTerm); ++i; event( DocAttribValue, p, f); }
			else if (ch == '[') { ++i; if (!until( "]", 1)) return false; }
			else { if (!token( 0)) return false; if (!ws( cur()) && cur() != '>') return error( IllegalDocAttr); event( DocAttribValue, p, f); }
		}
	}
	bool header()
	{
		if (!expect( "xml")) return false; if (!ws( cur()) && cur() != '?') return error( ExpXMLTag); const char* t = "?xml"; u32 f = np; while (*t) text( (uchar)*t++);
		event( HeaderStart, 0, f); if (!attributes( true)) return false; ++i; skipws(); if (cur() != '>') return error( ExpTagEnd); ++i; event( HeaderEnd, i, np); return true;
	}
	void scan( const u32* c_, u32 n_)
	{
		c = c_; n = n_; i = 0; bool skip = false; skipws(); if (!cur()) { event( Exit, i, np); return; }
		if (cur() != '<') { error( ExpOpenTag); return; } ++i; skipws();
		if (cur() == '?') { ++i; if (!header()) return; skip = true; }
		else if (cur() == '!') { ++i; if (!decl( skip)) return; }
		else if (!openTag()) return;
		for (;;)
		{
			if (skip) skipws(); skip = false;
			if (!cur()) { event( Exit, i, np); return; }
			if (cur() != '<') { u32 p = i, f = np; if (!token( 1)) return; event( Content, p, f); continue; }
			++i; skipws();
			if (cur() == '?') { ++i; if (!until( "?>", 2)) return; }
			else if (cur() == '!') { ++i; if (!decl( skip)) return; }
			else if (cur() == '/') { ++i; if (!closeTag()) return; }
			else if (!openTag()) return;
		}
	}
};
} // namespace ref

// document template: '~' is replaced by a symbolic byte
struct Doc { u32 c[ MAXDOC]; u32 n; Doc() :n(0) {} void add( u32 ch) { if (n < MAXDOC) c[ n++] = ch; else sym_fail("harness: document"); } void add( const char* s) { while (*s) add( (uchar)*s++); } };
// templates of long documents
static const char* const longTmpl[] = {
	"9<a>{x}~</a>", "5<{n}~>y</{n}>~", "5<a {k}~='v'>", "5<a b='{v}~'>", "3<a b=\"{&lt;}~\"/>", "2<a{ b='c'}~>x", "2{<a>}~{</a>}", "3<a>{&amp;}~", "3<a>{\r\n}~", "5<!--{c}~-->x", "5<a><?{p}~?>x", "5<a><![CDATA[{]}~]]>x", "3<a>{ }~<b>", "3<{ }a{ }b{ }={ }'~'{ }>x", "5{ }<a>~", "2<?xml {v='1' }~?>", "3<a>&{e}~;", "2<a>{&#x41;\r}~",
};
static std::string longText( unsigned max) { const char* t = longTmpl[ sym_choose( sizeof(longTmpl)/sizeof(*longTmpl))]; unsigned m = most( *t); return repeated( t+1, scaled( m < max ? m : max)); }
// template of a document: a fixed one first, one of the list or (LONG) a long one
static std::string docText( bool warm, const char* const* t, unsigned n)
{
	if (warm) return "<a b='c'>&lt;&#x41;</a>";
#ifdef LONG
	(void)t; (void)n; return longText( LONG);
#else
	return t[ sym_choose( n)];
#endif
}
#include "textwolf/istreamiterator.hpp"
template <int E> struct CharSetOf;
template <> struct CharSetOf<ref::UTF8> { typedef textwolf::charset::UTF8 T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UTF16LE> { typedef textwolf::charset::UTF16LE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UTF16BE> { typedef textwolf::charset::UTF16BE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UCS2LE> { typedef textwolf::charset::UCS2LE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UCS2BE> { typedef textwolf::charset::UCS2BE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UCS4LE> { typedef textwolf::charset::UCS4LE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::UCS4BE> { typedef textwolf::charset::UCS4BE T; static T make() { return T(); } };
template <> struct CharSetOf<ref::LATIN1> { typedef textwolf::charset::IsoLatin T; static T make() { return T(); } };
template <> struct CharSetOf<ref::LATIN2> { typedef textwolf::charset::IsoLatin T; static T make() { return T( 2); } };
template <> struct CharSetOf<ref::LATIN5> { typedef textwolf::charset::IsoLatin T; static T make() { return T( 6); } };
static unsigned unitWidth( int enc) { return enc >= ref::UCS4LE && enc <= ref::UCS4BE ? 4 : enc >= ref::UTF16LE && enc <= ref::UCS2BE ? 2 : 1; }

// the bytes of a document and the offset of each character
struct Source
{
	std::string s; u32 off[ MAXDOC+2]; char* mem; std::size_t size, term;
	Source( const u32* c, u32 n, int enc) { for (u32 i=0; i<n; i++) { off[i] = s.size(); ref::put( s, enc, c[i]); } off[n] = s.size(); size = s.size(); term = unitWidth( enc); mem = new char[ size + term]; std::memcpy( mem, s.data(), size); std::memset( mem + size, 0, term); }
	~Source() { delete [] mem; }
};
struct MemStream :public textwolf::IStream
{
	const char* p; std::size_t n, i; MemStream( const char* p_, std::size_t n_) :p(p_),n(n_),i(0) {} virtual ~MemStream() {}
	virtual std::size_t read( void* buf, std::size_t sz) { std::size_t k = n - i < sz ? n - i : sz; std::memcpy( buf, p + i, k); i += k; return k; } virtual int errorcode() const { return 0; }
};
enum {CText=1,CPos=2,CErr=4,CType=8};
template <class Scanner>
static void checkEvent( Scanner& sc, int t, const ref::Ev& e, const Source& src, int outenc, unsigned what)
{
	sym_assert( t == e.type, e.type == ref::ErrorOccurred ? "syntax error is reported" : t == ref::ErrorOccurred ? "no error without syntax error" : "element type");
	if (e.type == ref::ErrorOccurred)
	{
		if (what & CPos) sym_assert( sc.getPosition() == src.off[ e.endpos], "position of the error");
		if (what & CErr) { const char* m = 0; sym_assert( sc.getError( &m) == e.err, "reason of the error"); sym_assert( m && !std::strcmp( m, ref::errText[ e.err]), "error message"); sym_assert( sc.getError( &m) == 0 && m == 0, "reading the error resets it"); }
	}
	else
	{
		if ((what & CErr)) sym_assert( sc.getError() == 0, "no reason of an error without error");
		if (what & CText)
		{
			std::string x; for (u32 k=0; k<e.len; k++) ref::put( x, outenc, e.txt[k]);
			sym_assert( sc.getItemSize() == x.size() && sc.getItem().size() == x.size(), "size of the text"); sym_assert( sym_memeq( sc.getItemPtr(), x.data(), x.size()), "text");
		}
		if ((what & CPos) && e.type != ref::HeaderStart) { sym_assert( sc.getTokenPosition() == src.off[ e.pos], "token position"); }
	}
}
