// E01: names and causes
#include "common.hpp"
#include "textwolf/xmlscanner.hpp"
#include "textwolf/xmlpathautomaton.hpp"
using namespace textwolf;
typedef XMLScannerBase B;
#define N(x) {B::x,#x}
#define X(x) {throws_exception::x,#x}
#define C(x) {x,#x}
struct Nm { int v; const char* n; };
static const Nm causes[] = {X(Unknown),X(DimOutOfRange),X(StateNumbersNotAscending),X(InvalidParamState),X(InvalidParamChar),X(DuplicateStateTransition),X(InvalidState),X(IllegalParam),X(IllegalAttributeName),X(OutOfMem),X(ArrayBoundsReadWrite),X(NotAllowedOperation),X(FileReadError),X(IllegalXmlHeader),X(InvalidTagOffset),X(CorruptTagStack),X(CodePageIndexNotSupported)};
static const Nm types[] = {N(None),N(ErrorOccurred),N(HeaderStart),N(HeaderAttribName),N(HeaderAttribValue),N(HeaderEnd),N(DocAttribValue),N(DocAttribEnd),N(TagAttribName),N(TagAttribValue),N(OpenTag),N(CloseTag),N(CloseTagIm),N(Content),N(Exit)};
static const Nm states[] = {N(START),N(STARTTAG),N(XTAG),N(PITAG),N(PITAGEND),N(XTAGEND),N(XTAGDONE),N(XTAGAISK),N(XTAGANAM),N(XTAGAESK),N(XTAGAVSK),N(XTAGAVID),N(XTAGAVSQ),N(XTAGAVDQ),N(XTAGAVQE),N(DOCSTART),N(CONTENT),N(TOKEN),N(SEEKTOK),N(XMLTAG),N(OPENTAG),N(CLOSETAG),N(TAGCLSK),N(TAGAISK),N(TAGANAM),N(TAGAESK),N(TAGAVSK),N(TAGAVID),N(TAGAVSQ),N(TAGAVDQ),N(TAGAVQE),N(TAGCLIM),N(ENTITYSL),N(ENTITY),N(ENTITYE),N(ENTITYID),N(ENTITYSQ),N(ENTITYDQ),N(ENTITYLC),N(COMDASH2),N(COMSEEKE),N(COMENDD2),N(COMENDCL),N(CDATA),N(CDATA1),N(CDATA2),N(CDATA3),N(EXIT)};
static const Nm actions[] = {N(Return),N(ReturnWord),N(ReturnContent),N(ReturnIdentifier),N(ReturnSQString),N(ReturnDQString),N(ExpectIdentifierXML),N(ExpectIdentifierCDATA),N(ReturnEOF)};
static const Nm cchars[] = {C(Undef),C(EndOfText),C(EndOfLine),C(Cntrl),C(Space),C(Amp),C(Lt),C(Equal),C(Gt),C(Slash),C(Dash),C(Exclam),C(Questm),C(Sq),C(Dq),C(Osb),C(Csb),C(Any)};
// for the error messages: a word that tells the construct
static const Nm errors[] = {{B::ErrIllegalDocumentAttributeDef,"document attribute"},{B::ErrExpectedOpenTag,"open tag"},{B::ErrExpectedXMLTag,"XML tag"},{B::ErrUnexpectedEndOfText,"end of text"},{B::ErrSyntaxToken,"token"},{B::ErrStringNotTerminated,"not terminated"},{B::ErrUndefinedCharacterEntity,"entity"},{B::ErrExpectedTagEnd,"tag end"},{B::ErrExpectedEqual,"equal"},{B::ErrExpectedTagAttribute,"tag attribute"},{B::ErrExpectedCDATATag,"CDATA"},{B::ErrInternal,"internal"},{B::ErrUnexpectedEndOfInput,"end of input"},{B::ErrExpectedEndOfLine,"end of line"},{B::ErrExpectedDash2,"'-'"}};
#define O(x) {XMLPathSelectAutomaton<>::x,#x}
static const Nm opers[] = {O(Content),O(OpenTag),O(CloseTag),O(Attribute),O(ThisAttributeValue),O(AttributeValue),O(ContentStart)};
static bool contains( const char* t, const char* w) { for (; *t; ++t) { unsigned i=0; while (w[i] && t[i] == w[i]) ++i; if (!w[i]) return true; } return false; }
static int code( unsigned n) { int v = sym_byte(); sym_assume( v < (int)n); return v; }	// symbolic value of the enumeration
static const char* nameOf( const Nm* t, unsigned n, int v) { for (unsigned i=0; i<n; i++) if (t[i].v == v) return t[i].n; return 0; }
int main()
{
	const unsigned nc = sizeof(causes)/sizeof(Nm), nt = sizeof(types)/sizeof(Nm), ns = sizeof(states)/sizeof(Nm), na = sizeof(actions)/sizeof(Nm), ne = sizeof(errors)/sizeof(Nm), nk = sizeof(cchars)/sizeof(Nm);
#if PART == 0
	{ int v = code( nc); throws_exception::Cause c = (throws_exception::Cause)v; const char* w = nameOf( causes, nc, v);
	bool caught = false;
	try { throw exception( c); } catch (const std::exception& e) { caught = true; sym_assert( !strcmp( e.what(), w), "name of the cause"); }
	try { throw exception( c); } catch (const exception& x) { sym_assert( x.cause == c, "cause"); }
	sym_assert( caught, "caught as standard exception");
	exception a( c), b( a), d( throws_exception::Unknown); d = a; sym_assert( b.cause == c && d.cause == c && !strcmp( b.what(), w) && !strcmp( d.what(), w), "copies keep the cause"); sym_cover("cause"); }
#elif PART == 1
	{ int v = code( nt); sym_assert( (int)B::NofElementTypes == (int)nt, "number of element types"); sym_assert( !strcmp( B::getElementTypeName( (B::ElementType)v), nameOf( types, nt, v)), "element type name"); }
	{ int v = code( na); sym_assert( !strcmp( B::getActionString( (B::STMAction)v), nameOf( actions, na, v)), "action name"); }
	{ const unsigned no = sizeof(opers)/sizeof(Nm); int v = code( no); sym_assert( !strcmp( XMLPathSelectAutomaton<>::operationName( (XMLPathSelectAutomaton<>::Operation)v), nameOf( opers, no, v)), "operation name"); }
	sym_cover("types");
#elif PART == 2
	{ int v = code( ns); sym_assert( !strcmp( B::getStateString( (B::STMState)v), nameOf( states, ns, v)), "state name"); }
	{ int v = code( nk); sym_assert( (int)NofControlCharacter == (int)nk, "number of control characters"); sym_assert( !strcmp( ControlCharacterM::name( (ControlCharacter)v), nameOf( cchars, nk, v)), "control character name"); }
	sym_cover("states");
#else
	{ int v = code( ne); v += 1; const char* m = B::getErrorString( (B::Error)v); sym_assert( m && contains( m, nameOf( errors, ne, v)), "error message tells the construct");
	int u = code( ne); u += 1; if (u != v) sym_assert( strcmp( m, B::getErrorString( (B::Error)u)) != 0, "error messages are distinct"); sym_assert( B::getErrorString( B::Ok) == 0, "no message without error"); sym_cover("errors"); }
#endif
	return 0;
}
