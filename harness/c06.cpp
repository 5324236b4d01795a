// C06: the encoder of character references: all characters, all buffer sizes
#include "common.hpp"
#include "textwolf/charset_interface.hpp"
using namespace textwolf;
int main()
{
	u32 ch = symU32(); sym_assume( ch != 0); char ref[ 16]; unsigned n = refHex( ch, ref); ref[n] = 0; unsigned size = sym_choose( 16);
	char* buf = new char[ size ? size : 1]; std::memset( buf, '#', size ? size : 1); bool ok = charset::Encoder::encode( ch, buf, size);
	sym_assert( ok == (n < size), "a reference that fits including its end is reported as such"); unsigned m = n + 1 < size ? n + 1 : size;
	if (ok) sym_assert( sym_memeq( buf, ref, n + 1), "reference"); (void)m; sym_cover( ok ? "fits" : "too small");
	delete [] buf; return 0;
}
