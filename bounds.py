"""Bounds of every check (what the symbolic execution covers completely, and what lies outside), per tier."""
def q(t, a, b): return a if t == "quick" else b
OUTSIDE = " Outside: longer inputs, more symbolic characters than stated, failing allocations."
B = {
"C01": lambda t: "encode/decode: all 2^31 values; decode: all sequences of 8 bytes (first character); sequences: two arbitrary characters one behind the other.",
"C02": lambda t: "UTF-16LE and BE: all 2^32 values to print, all inputs of 4 bytes to decode.",
"C03": lambda t: "UCS-2LE/BE, UCS-4LE/BE: all 2^32 values to print, all inputs of 4 bytes to decode.",
"C04": lambda t: "code pages 1..9: all 256 bytes, all 2^32 values; all int values as code page index. Oracle: the tables of the ISO standards (python codecs iso8859_1,2,3,4,9,10,13,14,15).",
"C05": lambda t: "8 encodings; two arbitrary characters (6 bytes UTF-8/UTF-16, 4 UCS-2, 8 UCS-4, 2 code pages 3 and 8); every sequence of 3 accesses of 6 kinds on the first and every access on the second character.",
"C06": lambda t: "11 document templates with %d symbolic characters (the complete range of characters of the input encoding: planes 0,1,2,15,16), input UTF-8, UTF-16LE, UCS-4BE, ISO pages 5 and 9, output ISO-8859-1, UCS-2LE, UCS-2BE, read back as UCS-4BE; the encoder itself: all values 1..2^32-1, buffers of 0..15 bytes." % q(t, 1, 2),
"B01": lambda t: ("every sequence of %d operations (push, append of 0..4 bytes, resize 0..4, clear, copy/assign/self assign), capacity 1..3, own or external memory, all byte values." % q(t, 4, 5)) + ' Large inputs: blocks, capacities and new sizes around the powers of two from 16 to 65537 with symbolic bytes.',
"B02": lambda t: ("every sequence of %d operations (push, pop, copy/assign), entries of length 0,1,7,8,17,250,600 (beyond the first block), first three and last byte of each symbolic." % q(t, 4, 5)) + ' Large inputs: 16 to 8193 entries of lengths up to 1000; two entries of lengths around the powers of two up to 65537.',
"I01": lambda t: ("streams of up to %d symbolic bytes, buffer sizes 1..4, every split into partial reads, read error at every read; std::istream wrapper: failure at every position in three ways (failure, foreign exception, after some bytes) with and without error number; copies and assignments at every position." % q(t, 5, 7)) + ' Large inputs: streams of 15 to 65537 bytes (around the powers of two) with three symbolic bytes, buffers of 1, 255, 256, 257, 4096, 8192, 65536 and 100000 bytes, reads of at most 1, 100, 255, 256, 4095 bytes, copy at three places, error in the middle.',
"I02": lambda t: ("strings and chunks of up to %d symbolic bytes, all positions and differences, two chunks, with and without end of chunk signal." % q(t, 4, 6)) + ' Large inputs: strings and sequences of chunks of one size (1 to 1024) of 15 to 65537 bytes with three symbolic bytes.',
"E01": lambda t: "all values of the cause, element type, error, state, action and operation enumerations (symbolic value).",
"S01": lambda t: ("75 document starts (inside of every markup construct) followed by %s arbitrary bytes, at the end of input at once; 8 encodings and two code pages; char*, CStringIterator, SrcIterator, IStreamIterator; element mask of 16 symbolic bits (SrcIterator); output into std::string or a StaticBuffer of 8 bytes." % q(t, "3-4 (one byte encodings), 6 (two byte units), 9 (four byte units)", "3-6, 9 (two byte units), 13 (four byte units)")) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 65536 (1024 for UTF-8 streams and UCS-4BE, 4096 for the buffer of fixed size) and one symbolic character in each place.',
"S02": lambda t: ("43 templates (document start, header, tags, attributes, comments, processing instructions, CDATA, doctype) with %d arbitrary bytes at each place marked '*', ISO-8859-1 input." % q(t, 3, 4)) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 65536 and one symbolic character in each place.',
"S03": lambda t: ("12 text templates and the tag templates with %d arbitrary bytes at each place; ISO-8859-1, UTF-8, UCS-4LE input; UTF-8, UTF-16BE, ISO-8859-1 output." % q(t, 2, 3)) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 65536 (1024 from UTF-16BE to UTF-16LE) and one symbolic character in each place.',
"S04": lambda t: ("36 templates of references in content, attribute values, header and doctype with %d arbitrary bytes at each place; resulting values restricted to Unicode scalar values; also in UTF-16LE." % q(t, 2, 3)) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 1024 and one symbolic character in each place.',
"S05": lambda t: "6 templates with %d arbitrary bytes, one to three caller entities (one with a symbolic value), names in memory of the caller." % q(t, 3, 4),
"S06": lambda t: ("templates of all constructs with 1-3 symbolic characters: one split at every byte, byte by byte (with and without an empty last chunk)%s; the memory of a chunk is released when the next one is given; 6 encodings with wide characters of all lengths; setSource and putInput; symbolic element mask." % q(t, "", ", two splits at all positions")) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 4096 (256 for UTF-8 and UTF-16BE) and one symbolic character in each place, in chunks of one size from 1 to 1024 bytes.',
"S07": lambda t: ("38 templates with 1-3 symbolic bytes, element mask of 16 symbolic bits, constant or changing with every call; 5 encoding pairs.") + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 8192 (1024 for UTF-16LE) and one symbolic character in each place.',
"S08": lambda t: ("the templates of S02 and S03 with %d (%d for the other encodings) arbitrary bytes; char*, CStringIterator, SrcIterator, IStreamIterator with a buffer of 3 bytes; ISO-8859-1, UTF-8, UTF-16BE, UCS-2LE, UCS-4LE." % (q(t, 2, 3), q(t, 1, 2))) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 65536 (1024 for IStreamIterator and UTF-16BE) and one symbolic character in each place.',
"S09": lambda t: "11 document templates with %s characters over the complete range of the input encoding; 8 input encodings and ISO pages %s, 8 output encodings." % (q(t, "one symbolic (and one ASCII)", "two symbolic"), q(t, "2 and 6", "2..9")),
"S10": lambda t: ("the templates of S02 and S04 with %d arbitrary bytes; code, message and position of every error, position of every element before it; the iterator interface for the same documents." % q(t, 2, 3)) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 65536 and one symbolic character in each place.',
"S11": lambda t: ("6+6 templates with 1-3 symbolic bytes; copied, assigned or both released, at every element; copied while waiting for a chunk at every byte; 9 encoding pairs with code pages; three iterators (streams excluded: copies of a stream iterator share the stream).") + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 4096 (1024 for UTF-8 and chunks) and one symbolic character in each place, copied at four places.',
"S12": lambda t: ("17 templates with 1-2 symbolic bytes (any byte), 4 ways to start and advance the iterator, 4 encoding pairs, three input iterators, a caller entity.") + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 4096 and one symbolic character in each place.',
"S13": lambda t: ("11 templates with %d-4 symbolic bytes, buffers of 1, 2, 3, 5 and 9 bytes and std::vector, scanner copied after the first, second or no element; ISO-8859-1, UTF-8 and UTF-16LE." % q(t, 2, 3)) + ' Long documents: templates of all constructs with runs (text, names, blanks, references, attributes, elements) of lengths around the powers of two from 16 to 4096 (1024 for the buffer of fixed size) and one symbolic character in each place, buffers of 16 to 1000 bytes.',
"W03": lambda t: ("6 call sequences (header, doctype, tags, attributes, values, refused calls) with %d-3 symbolic characters; OstreamOutput on a model of std::ostream, std::vector, StaticBuffer of the exact size, one less and half of it; 3 encoding pairs." % q(t, 1, 2)) + ' Large inputs: 5 call sequences with texts, depths, numbers of attributes of 16 to 1025 (257 for UTF-16LE).',
"A06": lambda t: "expressions of 0-2 steps and 8 kinds of results; header with 0..2 attributes with symbolic names and values, every sequence of up to %d elements behind it; an event of the root defined before or after another expression." % q(t, 4, 5),
"A08": lambda t: "5 automata (no expression; tags, attributes, conditions, descendants, close tags, index conditions), 6 starts of up to 4 events, then every sequence of %d events of all 15 types with 4 kinds of keys (one symbolic character, equal to a name, empty, null); results fetched completely, up to the first or second one; UTF-8 and UTF-16LE." % q(t, 2, 3),
"R01": lambda t: "pairs of scanners (3 kinds of iterators, 3 encodings, different code pages), printers, header parsers, selectors on one automaton, automata built from texts, character readers: a symbolic byte in the first one, scanners also with their documents in two chunks; every interleaving of the steps with at most %d changes (4 for header parsers)." % q(t, 2, 4),
"A07": lambda t: "11 documents with 0-3 symbolic characters each (any byte) and 11 expressions; ISO-8859-1, UTF-8 and UTF-16BE documents, UTF-8, UTF-16LE and ISO-8859-1 automata.",
"W01": lambda t: ("trees of two tags, an attribute and text with %d symbolic characters (all XML characters) in each place, 6 application encodings, 12 document encodings." % q(t, 1, 2)) + ' Large inputs: 11 call sequences with texts, names, nesting depths and numbers of attributes of 15 to 8193 (1025, 257 for other encodings), one symbolic character in each place.',
"W02": lambda t: ("every sequence of %d calls of 6 kinds and of %d calls including copies and reset, names and values with a symbolic character, whole documents and parts." % (q(t, 4, 5), q(t, 3, 4))) + ' Large inputs: up to 257 open elements, then every call.',
"H01": lambda t: ("headers with 0..3 attributes in any order, symbolic white space, encoding names of 0..3 symbolic characters, 1, 2 and 4 bytes per character in both orders; 8 templates followed by %d arbitrary characters; all patterns of zero bytes over 7 bytes." % q(t, 3, 5)) + ' Large inputs: 11 header templates with runs of 16 to 8193 (two of them 65537) blanks, characters or attributes, in pieces of one size from 1 to 1000 bytes.',
"H02": lambda t: "8 templates followed by %d arbitrary characters, one split everywhere and byte by byte, copy between the chunks; clear after any prefix (also after an exception) of a header with %d arbitrary bytes." % (q(t, 2, 3), q(t, 3, 5)) + ' Large inputs: those of H01, cut in two halves or in pieces, by a new, a copied or a cleared parser.',
"A01": lambda t: ("expressions of 1-3 steps (tag, any tag, descendants, attribute conditions with name and value, name or value only) and 8 kinds of results; documents: every sequence of 4-%d elements (fixed starts of up to 6 elements for long expressions) with names and values of 1 or 2 symbolic characters (names also with non ASCII characters in UTF-8, UCS-2, UCS-4, ISO-8859-1)." % q(t, 8, 9)) + ' Large inputs: names and values of 16 to 65537 characters compared with ones of nearly the same length or 256 or 65536 apart; 11 shapes of documents with 16 to 129 (one step, all expressions), 257 (one step, fewer expressions) or 64 (two steps) repetitions (nested, siblings, contents, attributes) with a symbolic name and type; expressions of 17 to 258 steps.',
"A02": lambda t: ("one or two conditions of 4 kinds with symbolic bounds 0..2^31-2, content results of 1-2 steps, documents: every sequence of 6-%d elements." % q(t, 9, 10)) + ' Large inputs: 5 shapes with 16 to 257 contents or context elements, symbolic bounds at the start, around the number of contents, 252..259 and near 2^31.',
"A03": lambda t: ("2 expressions of 1-2 steps or 3 of 1 step, different and equal types, with an index condition on one; documents: every sequence of up to %d elements." % q(t, 5, 6)) + ' Large inputs: 16 to 1025 expressions (different names, conditions, or all matching the same element), a symbolic name in the document.',
"A04": lambda t: ("expression texts generated from expressions of 1-2 steps with lists, index conditions and blanks (at each one place or everywhere) with symbolic names, compared on every sequence of up to %d elements; 5 encodings of text and automaton; arbitrary texts: templates with 2-4 arbitrary characters; numeric references of up to %d digits; names of 255 to 3000 characters." % (q(t, 5, 6), q(t, 4, 5))) + ' Large inputs: texts of expressions with 17 to 258 steps.',
"A05": lambda t: ("expressions of 1-2 steps; documents: every sequence of 4-%d elements with close tags without open tag; three ways of iteration; copy or assignment at every element; inserted balanced sequences of depth 1-3 at every element." % q(t, 7, 8)) + ' Large inputs: 11 shapes of documents with 16 to 64 (128 for fewer expressions) repetitions, copy or assignment in the middle and near the end.',
}
def bounds(pid): return lambda t: B[pid](t) + OUTSIDE
