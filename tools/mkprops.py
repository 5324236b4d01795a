#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the JSON stays valid and readable).
import json, os
I="include/textwolf/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech]}}
    P.append(d)

# ---------------------------------------------------------------- character sets
p("C01","UTF-8 encodes every code point in shortest form and decodes it back",
 "Printing any character value below 2^31 as UTF-8 yields the shortest encoding form of that value (1 to 6 bytes), and decoding those bytes yields the same value and consumes exactly those bytes. A multi-byte sequence with a byte that is not a continuation byte is never decoded to an ordinary character: it is reported as the replacement value 0x7FFFFFFF, and the number of bytes it consumes depends on its lead byte only.",
 ["inputs"],"all 2^31 character values, all byte sequences of up to 8 bytes as one encoded character",
 "The reader test samples 10000 random characters; the value space has 2^31 elements and malformed sequences are never tried.",
 ["charset_utf8.hpp"],[("print / value / size / skip","charset_utf8.hpp")])
p("C02","UTF-16 (both byte orders) is lossless and rejects broken surrogate pairs",
 "For both byte orders every Unicode scalar value from 1 to 0x10FFFF prints as the standard UTF-16 byte sequence (one or two 16-bit units) and decodes back to itself, consuming exactly its bytes. A high surrogate followed by anything but a low surrogate decodes to 0xFFFF, and a value that has no UTF-16 encoding as single character (above 0x10FFFF or in the high surrogate range) is printed as a hexadecimal character reference instead.",
 ["inputs"],"all 2^32 character values and all 4-byte input sequences, both byte orders",
 "The test round-trips random characters; it never presents malformed pairs and does not reach the boundary values of the surrogate ranges.",
 ["charset_utf16.hpp"],[("value / print / size / skip / asciichar","charset_utf16.hpp")])
p("C03","UCS-2 and UCS-4 (both byte orders) are lossless",
 "For both byte orders UCS-4 maps every 32-bit value to its four bytes and back, and UCS-2 maps every 16-bit value to its two bytes and back, in the byte order named by the encoding and independent of the machine. A value above 0xFFFF is written to UCS-2 as the characters of its hexadecimal character reference, never truncated.",
 ["inputs"],"all 2^32 character values, all 2 and 4 byte inputs, both byte orders",
 "The test samples random characters in the encodable range only; byte order mistakes in single bytes, boundary values and the fallback are not covered exhaustively.",
 ["charset_ucs.hpp"],[("print / value / skip","charset_ucs.hpp")])
p("C04","ISO-8859-1 to -9 encode and decode as exact inverses for every character",
 "For each of the code pages 1 to 9 (ISO-8859 parts 1, 2, 3, 4, 9, 10, 13, 14 and 15), decoding any assigned byte gives the character that the standard assigns to it, and encoding that character gives the byte back. A character that is not in the code page is encoded as its hexadecimal character reference, never as a wrong byte and never dropped; a code page index outside 1..9 is refused with an exception.",
 ["inputs","configurations"],"all 9 code pages x all 256 bytes x all 2^32 character values (non-zero)",
 "The test uses code page 1 only (and only values below 256); the overlay tables of the other pages are never looked at.",
 ["codepages.hpp","charset_isolatin.hpp"],[("code page tables, invcode, ucharcode","codepages.hpp"),("print","charset_isolatin.hpp")])
p("C05","All views of the current character agree, in any order of access",
 "For every encoding, the Unicode value, the ASCII value, the control character class, the raw copy and the stream position of the current character do not depend on which of them were queried before or how often, and advancing consumes exactly the bytes of that character whatever was queried. The interface of the character set itself (value, ASCII value or -1 for a character that is not ASCII, bytes, skip) agrees with it. Copying a reader in the middle of a character gives a reader with the same current character and the same rest.",
 ["inputs","histories"],"all byte inputs of bounded length, all sequences of accessor calls of bounded length, all encodings",
 "Tests use one access pattern; the lazily filled character buffer makes every interleaving of accesses a separate case.",
 ["textscanner.hpp","charset_utf8.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_isolatin.hpp"],
 [("lazy character buffer","textscanner.hpp"),("fetchbytes/asciichar/skip","charset_utf16.hpp")])
p("C06","Characters an encoding cannot represent survive as character references",
 "When the scanner delivers text in an output encoding that lacks some character, that character is replaced by a reference of the form &#x<lower case hex>; that denotes exactly this character, and all representable characters around it stay unchanged. Scanning the text again with a complete output encoding restores the original characters.",
 ["inputs"],"all character values 1..0x10FFFF as content, output encodings ISO-8859-n and UCS-2",
 "No test prints to an encoding that lacks characters of the input.",
 ["charset_interface.hpp","charset_isolatin.hpp","charset_ucs.hpp"],[("Encoder::encode","charset_interface.hpp")])

# ---------------------------------------------------------------- buffers and stacks
p("B01","The fixed size output buffer never exceeds its capacity and keeps its content",
 "After any sequence of appending single characters or blocks, resizing and clearing, the fixed size buffer holds exactly the longest prefix of the sequence that fits and reports overflow exactly when something was dropped since the last clear; shrinking keeps the prefix, growing pads up to the capacity. Reads behind the filled part are refused with an exception, memory outside the capacity is never touched, and a copy is independent of its origin and releases its memory.",
 ["inputs","histories"],"all operation sequences of bounded length with arbitrary arguments, capacities 1..8",
 "No test exercises overflow, resize, element access or copies.",
 ["staticbuffer.hpp"],[("push_back/append/resize/operator[]","staticbuffer.hpp")])
p("B02","The tag name stack is a stack of arbitrary byte strings",
 "After any sequence of pushes and pops the topmost entry is the most recently pushed and not yet popped byte string, with exactly its bytes and length, for every content and length, including growth of the stack memory and copies of the stack. An empty stack reports that there is no top entry.",
 ["inputs","histories"],"all push/pop/copy/clear sequences of bounded length, names with arbitrary bytes and lengths around the alignment and growth boundaries",
 "Tests reach a depth of a few short names; growth, alignment remainders and copies are not covered.",
 ["xmltagstack.hpp"],[("push/top/pop","xmltagstack.hpp")])

# ---------------------------------------------------------------- scanner
p("S01","Scanning any input is memory safe and ends",
 "For every input byte sequence, read through an iterator that knows its end (or a zero terminated string in a byte encoding), the scanner delivers a finite sequence of elements that ends with either the end-of-document or an error element, without any access outside of its objects and without exception; it never loops, and it consumes at least one input character for every few elements. Truncating a document at any point inside markup never yields an endless scan.",
 ["inputs"],"all byte strings up to a bounded length from the start and from inside every markup construct, several encodings",
 "Tests use a handful of correct documents; unterminated comments, processing instructions or doctypes are never tried.",
 ["xmlscanner.hpp","textscanner.hpp"],[("nextItem loop and state machine table","xmlscanner.hpp")])
p("S02","The element sequence delivered for a document is the one its markup denotes",
 "For a document built from an optional XML header, doctype, comments, processing instructions, tags with attributes, immediate close tags, CDATA and text, the scanner reports exactly the corresponding elements in document order: header start/attributes/end, doctype items, open tags, attribute names and values, close tags, content and the end of the document. Comments (without '--' inside), processing instructions and CDATA sections, with any content including partial terminators, are skipped completely and do not influence the elements that follow (white space behind a comment, a doctype or the header may be skipped with it).",
 ["inputs"],"all documents up to a bounded length over all bytes, compared with an independent reference scanner",
 "The existing test prints the elements of sample documents; it cannot cover the choice of the byte at each position in each syntactic context.",
 ["xmlscanner.hpp"],[("state machine definition","xmlscanner.hpp"),("nextItem","xmlscanner.hpp")])
p("S03","Delivered text equals the text in the document",
 "Tag names, attribute names, attribute values and content are delivered complete and unchanged in the output encoding, with the predefined entities (quot, amp, apos, lt, gt, nbsp) and decimal or hexadecimal character references replaced by the characters they denote and every line end (CR, LF or CRLF) delivered as one line feed. The delivered size is exact and nothing of an earlier element remains.",
 ["inputs"],"all texts up to a bounded length with arbitrary characters and references",
 "Sampled texts cannot cover reference boundaries (buffer lengths, value limits) and combinations of line ends.",
 ["xmlscanner.hpp"],[("parseToken/parseEntity/push","xmlscanner.hpp")])
p("S04","Ampersand sequences that are no entity reference are passed through literally",
 "If the characters after '&' do not form a complete character reference or entity name (wrong digit, no digit, missing semicolon, value beyond 32 bits, too long), the text delivered is exactly the source text, character for character, and scanning continues normally behind it. An entity name that is complete but unknown is reported as undefined entity error. (A semicolon directly behind the ampersand is left open, as are references to values that are no Unicode character.)",
 ["inputs"],"all continuations of bounded length after '&', '&#', '&#x' and partial names",
 "No test contains a malformed reference.",
 ["xmlscanner.hpp"],[("fallbackEntity and its callers","xmlscanner.hpp")])
p("S05","Entities defined by the caller are replaced by their characters",
 "A reference to an entity name registered by the caller is delivered as the registered character, for every name and character, independent of where the caller stores the name string; a name that is not registered is reported as an undefined entity and predefined entities keep their meaning.",
 ["inputs","configurations"],"all entity names up to a bounded length, all character values, maps of one to three entries",
 "No test registers an entity.",
 ["xmlscanner.hpp"],[("EntityMap lookup in pushEntity","xmlscanner.hpp")])
p("S06","Feeding a document in chunks gives the same elements as feeding it at once",
 "For every document and every way of splitting it into chunks, at every byte including inside characters, entities, keywords and line ends, the elements, texts and positions delivered while feeding chunk by chunk are those delivered for the whole document.",
 ["inputs","schedules"],"all documents up to a bounded length x all split points (one and two splits, and byte by byte)",
 "The chunkwise example is not part of the tests; splits times contents is beyond any sample.",
 ["xmlscanner.hpp","sourceiterator.hpp","textscanner.hpp"],[("token parser state saved over the end of chunk jump","xmlscanner.hpp"),("end of chunk jump","sourceiterator.hpp")])
p("S07","Masking out elements changes neither the elements nor the other texts",
 "For every document without undefined entities and every element mask (a fixed one or another one for every call), the sequence of element types and the position after each element are the same as without mask, the texts of elements that are not masked out are the same, and the scanner ends in the same way. For a masked out element no text of it is delivered in any later element.",
 ["inputs","configurations"],"all documents up to a bounded length x all masks",
 "Tests never use a mask.",
 ["xmlscanner.hpp"],[("skipToken versus parseToken","xmlscanner.hpp")])
p("S08","Reported positions are source byte offsets",
 "The position reported by the scanner and by the reader is the number of source bytes consumed before the current character, is never decreasing, and the token position of each element with a text is the offset of the first byte of this text in the document (for an element without text the position behind its mark), for every input iterator type and encoding.",
 ["inputs"],"all documents up to a bounded length, iterators on strings, chunks and streams",
 "Tests never look at positions.",
 ["xmlscanner.hpp","textscanner.hpp","sourceiterator.hpp","istreamiterator.hpp","cstringiterator.hpp"],[("getPosition/getTokenPosition","xmlscanner.hpp")])
p("S09","The same document gives the same elements in every encoding",
 "A document encoded in UTF-8, UTF-16, UCS-2, UCS-4 (any byte order) or an ISO-8859 code page gives the same sequence of elements with the same text in the chosen output encoding, for every pair of input and output encoding that can represent it.",
 ["inputs","configurations"],"all documents up to a bounded number of characters x input encodings x output encodings",
 "The test compares decoded characters only for the text reader, not for the scanner, and only random text.",
 ["xmlscanner.hpp","textscanner.hpp","charset_utf16.hpp","charset_ucs.hpp","charset_utf8.hpp","charset_isolatin.hpp"],[("copychar versus decode/encode path","textscanner.hpp")])
p("S10","Syntax errors are reported with the right reason where they occur",
 "Markup that violates the syntax is answered with an error element whose reason (code and message) names the construct that is broken, at the first offending character, after all elements that were complete before it have been delivered; the iterator interface hands out the same message. Reading the reason resets it, and a document without error never reports one.",
 ["inputs"],"all documents up to a bounded length, compared with the reference scanner",
 "No test contains a syntax error.",
 ["xmlscanner.hpp"],[("missError of the states, getError, iterator element","xmlscanner.hpp")])
p("S11","A copied scanner continues like its origin",
 "A scanner copied or assigned at any point between two elements, or while it waits for its next chunk, delivers the same remaining elements, texts, errors and positions as its origin would, and neither disturbs the other (the origin may be released), for every input and output encoding including code pages.",
 ["inputs","histories"],"all documents up to a bounded length x copy after each element",
 "No test copies a scanner in the middle of a document.",
 ["xmlscanner.hpp","textscanner.hpp"],[("copy constructor","xmlscanner.hpp")])

p("S12","The iterator interface visits exactly the elements of the document",
 "Iterating from begin to end visits exactly the elements, texts, sizes and positions that fetching the elements one by one delivers, in the same order, for every document and however the iterator is started and advanced. An iterator compares equal to the end exactly when the document ended, an error is handed out as the message of its reason, and every element names its type.",
 ["inputs"],"all documents up to a bounded length, four ways of starting and advancing",
 "The tests iterate over a few valid documents and never reach an error element.",
 ["xmlscanner.hpp"],[("XMLScanner::iterator and its Element","xmlscanner.hpp")])

p("S13","The scanner delivers the same text into every kind of output buffer",
 "Whatever back insertion sequence the scanner is instantiated with, it delivers the same elements at the same positions with the same text. If the sequence is a buffer of fixed size, the text of each element is the prefix that fits and overflow is reported for exactly those elements whose text did not fit, without any effect on the other elements; this holds for copies of the scanner too.",
 ["inputs","configurations"],"all documents up to a bounded length x capacities of the buffer x copy after an element",
 "Tests use strings only; a text that does not fit into its buffer never occurs.",
 ["xmlscanner.hpp","staticbuffer.hpp"],[("push/clear of the output buffer","xmlscanner.hpp"),("push_back/clear","staticbuffer.hpp")])

# ---------------------------------------------------------------- printer
p("W01","What the printer writes the scanner reads back",
 "A tree of tags, attributes and text printed with the XML printer gives a document from which the scanner delivers the same tags, attribute names, attribute values and texts, for every non-empty name, and for every text and attribute value of legal XML characters (markup characters, quotes, tabs and line ends included), and every encoding pair; the printed XML header is read back as header. Characters with a meaning in markup never appear unescaped in a printed value.",
 ["inputs","histories"],"all attribute values and texts up to a bounded length, arbitrary characters, encodings UTF-8, UTF-16, ISO-8859",
 "There is no printer test.",
 ["xmlprinter.hpp","xmlscanner.hpp"],[("printToBufferContent/printToBufferAttributeValue","xmlprinter.hpp")])
p("W02","The printer accepts exactly the call orders that give well formed XML",
 "A call that does not fit the current state (header not at the start, anything else before the header of a full document, attribute outside of an open tag, close tag without open tag, doctype inside of an element, anything but a value after an attribute name) returns false, names the reason of this refusal, and leaves output and state unchanged. Every accepted sequence of calls gives balanced tags with close tags in the reverse order of the open tags; copies and a reset printer behave the same.",
 ["histories"],"all call sequences of bounded length, with and without header requirement",
 "There is no printer test; the state space is all call sequences.",
 ["xmlprinter.hpp","xmltagstack.hpp"],[("printer state machine","xmlprinter.hpp")])

p("W03","The printer writes the same bytes into every kind of output",
 "For every sequence of printer calls the bytes written and the calls refused are the same for a string, a vector, a stream output and a buffer of fixed size, except that the buffer of fixed size keeps the prefix that fits and reports overflow exactly if something was dropped. The stream output passes on each byte exactly once and in order, whether appended one by one or as a block.",
 ["inputs","configurations"],"all call sequences from templates with arbitrary characters x outputs x capacities",
 "There is no printer test and the stream output is not used by any test.",
 ["xmlprinter.hpp","ostreamoutput.hpp","staticbuffer.hpp"],[("print calls on BufferType","xmlprinter.hpp"),("OstreamOutput::push_back/append","ostreamoutput.hpp")])

# ---------------------------------------------------------------- header parser
p("H01","The header parser finds the declared encoding of any document",
 "For an XML header with version, encoding and standalone attributes in any order, quoting and white space, in any encoding built on ASCII with one, two or four bytes per character, the header parser reports the declared encoding name exactly, or none if there is none. A document starting with an ordinary tag has no encoding, and anything else is refused with an error message or an exception for more than three zero bytes in a row.",
 ["inputs"],"all headers up to a bounded length over all bytes, zero byte padding of wide encodings",
 "The header parser has no test.",
 ["xmlhdrparser.hpp"],[("parse, nextChar","xmlhdrparser.hpp")])
p("H02","The header parser result does not depend on how the input is split",
 "For every input and every split into chunks the header parser gives the same result, encoding, error and consumed character count as for the whole input, asks for more input exactly as long as the header is incomplete, and gives back the complete unmodified data it was fed. After clear it behaves like new, and a copy continues like its origin.",
 ["inputs","schedules"],"all inputs up to a bounded length x all splits",
 "The header parser has no test.",
 ["xmlhdrparser.hpp"],[("putInput/parse/consumedData/clear","xmlhdrparser.hpp")])

# ---------------------------------------------------------------- path selection
p("A01","Path selection reports exactly the elements the expression denotes",
 "For every path expression of tags, wildcards, descendant steps, attributes, attribute conditions, content and close tag selectors and every sequence of document elements, the selector reports the assigned type for exactly those elements that match the expression in the document tree, once per way to match it. A condition on an attribute is met from the attribute on (conditions apply in document order).",
 ["inputs","programs"],"all expressions of bounded length x all element sequences of bounded length and depth, compared with an independent evaluator on the tree",
 "The test has a few dozen fixed expression/document pairs with printed results.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("match/produce/expand/fetch","xmlpathselect.hpp"),("defineNext/defineOutput","xmlpathautomaton.hpp")])
p("A02","Index conditions select the elements with the given indices",
 "An index, a lower bound, an upper bound or an index range (or several of them) on a content selector restricts the result to the matching content elements with these zero based indices within the element matched by the expression, for all bounds and any number of matching elements, and starts counting anew for each element matched.",
 ["inputs","programs"],"all bounds in a small range x all element sequences of bounded length",
 "A few fixed bounds are printed by the test.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("range counters of tokens","xmlpathselect.hpp"),("doRange","xmlpathautomaton.hpp")])
p("A03","Expressions in one automaton do not influence each other",
 "Several expressions in one automaton do not influence each other: each type is reported as often as if its expression was the only one, in every order of definition, with shared prefixes, equal expressions, equal and different types, and with and without index conditions.",
 ["inputs","programs"],"all pairs of expressions from the grammar of bounded length x all element sequences of bounded length",
 "Fixed combinations only.",
 ["xmlpathautomaton.hpp","xmlpathselect.hpp"],[("state sharing and linking in defineNext/defineOutput","xmlpathautomaton.hpp")])
p("A04","The path expression parser and the programming interface agree",
 "A syntactically correct expression text defines the same selection as the equivalent calls of the programming interface, whatever blanks separate its parts, for all names and values of any length including non ASCII characters and for every encoding of the text and of the automaton; numeric character references in names and values of the programming interface stand for their character. An incorrect expression is rejected with a non-zero position inside the text or directly behind it, without touching memory outside of the text, and selects nothing.",
 ["inputs","programs"],"all expression texts up to a bounded length over all bytes",
 "Only a fixed set of correct expressions is parsed by tests.",
 ["xmlpathautomatonparse.hpp","xmlpathautomaton.hpp"],[("addExpression","xmlpathautomatonparse.hpp")])
p("A05","Path selection state is restored when an element is closed",
 "After any balanced element sequence inside an open element the selector behaves for the following elements exactly as if that sequence had not been there (as far as no index condition counted it), whatever way the results are iterated; close tags without open tag do no harm, and a copied or assigned selector continues like its origin without disturbing it.",
 ["inputs","histories"],"all element sequences of bounded length x copy points",
 "Not covered by any test.",
 ["xmlpathselect.hpp"],[("scope stack push/pop","xmlpathselect.hpp")])

p("A06","The XML header does not influence what is selected in the document",
 "In path selection the XML header counts as an element of its own at the document root (matched by the any tag steps, its attributes by attribute steps), and everything behind it is selected exactly as if the header had not been there. An event assigned to the root of the automaton is reported exactly once for every document, with its header or else not later than with its root element.",
 ["inputs","programs"],"all expressions of bounded length x all headers and element sequences of bounded length",
 "The test has a single header, and no expression there tells whether it is closed.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("initProcessElement/closeProcessElement","xmlpathselect.hpp"),("seekop","xmlpathautomaton.hpp")])
p("A07","Selecting from a scanned document gives what the expression denotes in its text",
 "Feeding the elements of a scanned document to the selector (as they are fetched or through the iterator) reports exactly the elements that the expression denotes in the document, whatever entities, CDATA sections, comments, declarations, processing instructions and quoting the document contains and whatever encoding the document and the automaton have.",
 ["inputs"],"all documents from templates with arbitrary characters x expressions of 11 forms",
 "The test scans a handful of fixed documents in one encoding.",
 ["xmlpathselect.hpp","xmlscanner.hpp"],[("push","xmlpathselect.hpp"),("nextItem/iterator","xmlscanner.hpp")])

p("A08","Path selection is sound for any sequence of events",
 "A selector fed with any sequence of scanner events - well formed or not: closing tags without opening ones, attribute values without names, content outside of elements, errors, exits - and any keys, whose results are fetched completely, partially or not at all, stays within its memory, reports only types that were defined in the automaton and comes to an end.",
 ["inputs","histories"],"all event sequences of bounded length x symbolic keys x all fetching decisions",
 "Tests feed well formed documents and fetch all results; the sequences a hostile document produces are not sampled.",
 ["xmlpathselect.hpp","xmlpathautomaton.hpp"],[("push/expand/fetch","xmlpathselect.hpp")])

p("R01","Objects used side by side do not influence each other",
 "Two scanners, printers, header parsers, selectors (also on the same automaton), path expression parsers or character readers used alternately, in any interleaving, give each exactly what it gives when used alone, and what one delivered stays as it is while the other works.",
 ["inputs","schedules"],"all inputs from templates x all interleavings of the operations of two objects",
 "No test uses two objects of a class at the same time; shared static state shows in interleavings only.",
 ["xmlscanner.hpp","xmlprinter.hpp","xmlhdrparser.hpp","xmlpathselect.hpp","xmlpathautomatonparse.hpp","textscanner.hpp"],
 [("nextItem","xmlscanner.hpp"),("printOpenTag..","xmlprinter.hpp"),("push","xmlpathselect.hpp"),("addExpression","xmlpathautomatonparse.hpp")])

# ---------------------------------------------------------------- input and output
p("I01","Stream input delivers exactly the bytes of the stream, for every buffer size",
 "Iterating a stream yields exactly its bytes in order and zero bytes afterwards, and the position is the byte offset, for every buffer size and every way the stream returns partial blocks; copies of the iterator keep their own read position in the data they hold, and iterators can be assigned. A read error is reported as exception with the file read error cause, and the end of the stream is not an error.",
 ["inputs","schedules","fault_sequences"],"all stream contents up to a bounded length x buffer sizes 1..4 x all block partitions x error at any read",
 "The stdin test reads one file with one buffer size.",
 ["istreamiterator.hpp"],[("fillbuf / operator++ / StdInputStream::read","istreamiterator.hpp")])
p("I02","String and chunk iterators deliver exactly their input",
 "Iterators on strings and on chunks deliver exactly the bytes given, never read outside of them, return zero at and after the end (or signal the end of the chunk if the caller asked for it), and report consistent positions, differences and end-of-chunk for every content, size and position.",
 ["inputs","histories"],"all contents up to a bounded length x all operation sequences of bounded length",
 "Tests iterate only forward over complete strings.",
 ["sourceiterator.hpp","cstringiterator.hpp"],[("operator*/++/-/position","sourceiterator.hpp"),("pos","cstringiterator.hpp")])
p("E01","Exceptions and names identify their cause",
 "Every library exception carries the cause it was raised for and describes it with the name of exactly that cause; the printable names of element types, errors, states, actions and operations are distinct, complete and match their values.",
 ["inputs"],"all enumeration values",
 "No test provokes an exception.",
 ["exception.hpp","xmlscanner.hpp","char.hpp","xmlpathautomaton.hpp"],[("what()","exception.hpp"),("name tables","xmlscanner.hpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")
