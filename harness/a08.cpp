// A08: any sequence of events (types in any order, any keys, results fetched or not) leaves the selector sound: memory safety, finite results of defined types.
#include "path.hpp"
using namespace textwolf;
typedef path::Automaton A;
static void define( A& a, unsigned k)
{
	path::Name n = path::bytesName( "q"), v = path::bytesName( "v");
	switch (k)
	{
		case 0: (*a)[ n.z] = 1; (*a)[ n.z]() = 2; (*a)[ n.z]( n.z) = 3; break;
		case 1: (*a)--[ n.z]( n.z, v.z)() = 1; (*a)-- [ n.z].selectCloseTag() = 2; break;
		case 2: (*a)--().FROM(1).TO(3) = 1; (*a)--[(const char*)0]( (const char*)0) = 2; break;
		case 3: (*a)[(const char*)0]--( n.z).INDEX( 1) = 1; (*a)[ n.z].selectCloseTag() = 3; (*a)--[ n.z][ n.z] = 2; break;
		default: break;
	}
}
static void run( bool warm)
{
	A atm; unsigned k = warm ? 1 : sym_choose( 5); define( atm, k); unsigned policy = warm ? 0 : sym_choose( 3); bool results = false, unfetched = false;
	path::Select xs( &atm); char sb[3]; sb[0] = warm ? 'q' : (char)sym_byte(); sb[1] = 0; sb[2] = 'x'; unsigned pre = warm ? 0 : sym_choose( 6); static const int pretype[6][4] = {{0,0,0,0},{ref::OpenTag,ref::TagAttribName,ref::TagAttribName,0},{ref::OpenTag,ref::OpenTag,ref::CloseTag,0},{ref::OpenTag,ref::Content,ref::OpenTag,ref::OpenTag},{ref::CloseTag,ref::OpenTag,ref::CloseTagIm,ref::CloseTag},{ref::HeaderStart,ref::OpenTag,ref::HeaderEnd,ref::TagAttribValue}};
	for (unsigned i=0; i<NEV+4; i++)
	{
		int type; const char* key = sb; int sz = unitWidth( ENC) > 1 ? 3 : 1; path::Name q;
		if (i < 4) { if (pretype[ pre][ i] == 0) continue; type = pretype[ pre][ i]; q = path::bytesName( "q"); key = q.p; sz = q.n; }
		else { type = warm ? (int)i : (int)sym_choose( 15); unsigned kk = sym_choose( 4); if (kk == 1) { q = path::bytesName( "q"); key = q.p; sz = q.n; } else if (kk == 2) { sz = 0; } else if (kk == 3) { key = 0; sz = 0; } if (warm && kk) return; }
		path::Select::iterator it = xs.push( path::et( type), key, sz), end = xs.end(); unsigned n = 0;
		for (; it != end; ++it) { sym_assert( *it >= 1 && *it <= 3, "result is one of the types defined"); results = true; if (++n > 40) sym_fail( "endless results"); if (policy == 1 || (policy == 2 && n == 2)) { unfetched = true; break; } }
	}
	if (policy == 0) sym_assert( *xs.end() == 0, "end of the results");
	if (!warm && policy && !unfetched) return;
	if (!warm && results) sym_cover( "results"); if (unfetched) sym_cover( "results not fetched");
}
int main() { run( true); run( false); return 0; }
