IN, H, C, S, F, PR = 'inputs', 'histories', 'configurations', 'schedules', 'fault_sequences', 'programs'
L = 'src/lib/'
I = 'include/Srl/'


def m(*a):
    return [{'name': n, 'where': w} for n, w in a]


prop('S01', 'Reading never leaves the valid part of the input',
     'Whatever bytes a document of any format consists of, reading it never dereferences a position before the start or '
     'behind the end of the bytes handed in (or of the bytes a stream has delivered), and no length found in a document '
     'can wrap around and pass for a smaller one. A document that ends too early ends in an Srl::Exception.',
     [IN], 'all byte sequences, all three formats, memory and stream sources, every position at which the data may end',
     'The malicious-input tests truncate and flip bytes of a few documents; out-of-bounds reads mostly stay silent there.',
     [I + 'In.hpp', I + 'In.h', L + 'In.cpp', L + 'PJson.cpp', L + 'PMsgPack.cpp', L + 'PSrl.cpp'],
     m(('room check before every access', I + 'In.hpp'), ('fetch_data reports the error', L + 'In.cpp')),
     'abstract interpretation: each parser reads a document of unknown bytes from memory of unknown size or from a model of a '
     'stream that may end anywhere; a ghost record of which bytes of the data lie where follows copies, moves and '
     'reallocations',
     'One read call after every kind of beginning (the scopes and, for Srl, the names read before). Lengths are symbolic; '
     'JSON documents are read with up to two (thorough: three) unknown bytes at their end. Streams of up to 4 MiB, Srl items of '
     'which at most one length is longer than two bytes.')

prop('S02', 'Refilling the stream window loses and moves nothing',
     'When more bytes are fetched from a stream, every byte not consumed yet and every byte of a block that is still being '
     'collected is kept, in order and at the same distance from the read position, and nothing keeps pointing into the old '
     'window. A fetch reports success only if the requested number of bytes is available; otherwise the bytes delivered so '
     'far stay readable.',
     [IN, H], 'all sequences of reads and refills, all chunk sizes, every position of read pointer and block start',
     'Tests use small streams that fit one block of 1024 bytes, so that a refill with a pending block hardly occurs.',
     [L + 'In.cpp', I + 'In.h', I + 'In.hpp'],
     m(('try_fetch_data', L + 'In.cpp'), ('anchor', I + 'In.h')),
     'abstract interpretation of LLVM IR: sequences of input operations of unknown sizes over data of unknown length, with a record of which bytes lie where',
     'Up to three operations after each other (any sizes), texts that reach over one or two (thorough: three) refills; an istream delivers what it is asked for unless it ends.')

prop('S03', 'JSON text of strings and names follows the grammar both ways',
     'Every text value and every field name is written to JSON as a quoted string of the JSON grammar that denotes exactly its bytes: no byte of '
     'its content ends the string early, starts an escape it did not mean or stands as a raw control character. The reader turns every '
     'string of the grammar, short escapes, \\uXXXX and surrogate pairs included, into the bytes it denotes (UTF-8).',
     [IN], 'all byte strings as values and as field names; all strings of the grammar',
     'Tests use a handful of ASCII strings.',
     [L + 'PJson.cpp', I + 'Out.hpp', I + 'In.hpp', L + 'ToolsBtsConv.cpp', L + 'ToolsStrConv.cpp'],
     m(('write_text / write_escape', L + 'PJson.cpp'), ('read_unescape / uc_literal', L + 'PJson.cpp')),
     'abstract interpretation of LLVM IR with unknown bytes, compared value by value with the JSON grammar',
     'Texts of up to 3 unknown bytes, and one unknown byte within long text; sequences of up to 2 (thorough: 3) units of a string. iconv is replaced by its specification.')

prop('S04', 'MessagePack is written and read as the specification says',
     'Every integer, float, truth value, null, text, binary value and every array and map, however nested, is written with '
     'bytes the MessagePack specification assigns to exactly that value, the announced number of elements being the number '
     'written. The reader gives every one of the 256 first bytes the meaning and length of the specification or rejects it, '
     'lets a container end after exactly as many elements as it announces, takes texts (and skips other plain values) as '
     'keys, and refuses documents that end too early.',
     [IN, H], 'all values and lengths (below 2^32) of every width, all 256 first bytes of values and of keys with all continuations, all element counts',
     'Tests only read back what the library itself wrote, so that writer and reader may agree on something else; long data and big counts do not occur.',
     [L + 'PMsgPack.cpp', I + 'PMsgPack.h', L + 'Out.cpp', I + 'Out.hpp', I + 'In.hpp'],
     m(('write / write_scope', L + 'PMsgPack.cpp'), ('prefix tables', L + 'PMsgPack.cpp')),
     'abstract interpretation of LLVM IR (relational, path sensitive) against the table of the specification',
     'Names and lengths of data that do not fit 32 bits are outside (the format cannot hold them). Sequences of scopes are a '
     'fixed set of shapes with abstract contents; counts are generalised by the cell that counts.')

prop('S05', 'The Srl binary format is read as it was written',
     'Writer and reader of the Srl format agree on the meaning of every flag bit of a segment header, on the variable length '
     'coding of sizes and integers, on the sign of negative integers and on the numbering of field names within a document, '
     'however often names come back and whatever their hash values are: what was written is read back with the same types, '
     'values, data and names, in the same order, and nothing more. A name index that no writer produces, the end of a scope '
     'that was not begun and a document that ends too early are refused with Srl::Exception.',
     [IN, H], 'all integers, floats, truth values, data of every length below 2^32, all 256 header bytes with all continuations, names in a set of shapes',
     'Tests store a few objects with few names and small sizes.',
     [L + 'PSrl.cpp', I + 'PSrl.h', I + 'Hash.hpp'],
     m(('encode_integer/decode_integer', L + 'PSrl.cpp'), ('hashed and indexed strings', I + 'PSrl.h')),
     'abstract interpretation of LLVM IR: writer composed with reader in one relational state',
     'Sequences of scopes and names are a fixed set of shapes (up to 300 names, 9 scopes deep) with the names of each constant; '
     'names of unknown content up to 300 bytes. Values hold at most 2^32 - 1 bytes.')

prop('S06', 'Base64 and hex text is coded exactly and malformed text rejected',
     'Encoding bytes as Base64 or hex and decoding the text again yields the same bytes, the Base64 text being that of the '
     'standard alphabet with padding. Decoding any other text neither reads nor writes outside its buffers; text with a '
     'character outside the alphabet, of impossible length or with misplaced padding is rejected.',
     [IN], 'all byte blocks and all texts of every length',
     'Tests code a few well-formed blocks.',
     [L + 'ToolsBtsConv.cpp', I + 'Tools.h'],
     m(('base64 tables', L + 'ToolsBtsConv.cpp')),
     'abstract interpretation of LLVM IR: coder composed with decoder, tables compared with those of the standard',
     'Blocks up to the lengths listed in the evidence byte for byte, longer ones by the loop invariants of the coders.')

prop('S07', 'Numeric conversions are exact or throw',
     'Pasting or unwrapping a number into a variable of another arithmetic type yields exactly the stored number (as far as the '
     'target represents it: fractions are cut off in integers, floating point rounds, a truth value is "not 0") or throws '
     'Srl::Exception, and it throws only when the number lies outside the range of the target (NaN for integers). '
     'Decimal text pasted into a number behaves like the number; text that is no number is refused.',
     [IN], 'all pairs of source and target types, all values (integers of every width, floating point including NaN and infinity)',
     'Tests try a few extreme values for a few pairs.',
     [I + 'TpTools.h', I + 'Value.hpp', I + 'Resolve.hpp', L + 'ToolsStrConv.cpp'],
     m(('try_apply / overflows range tests', I + 'TpTools.h'), ('choice between float and double', I + 'Value.hpp')),
     'abstract interpretation (relational value analysis) of every pair of types',
     'Each of the 11 source types and 12 target types is analysed with one abstract number for the whole source range; text up to 4 characters.')

prop('S08', 'Decimal text and integers convert exactly',
     'Every integer is written as its shortest decimal text, and text that is a decimal integer from -(2^63 - 1) to 2^64 - 1 is read as '
     'exactly that integer, while out-of-range text never yields a wrapped one. The digit buffers are never overrun.',
     [IN], 'all integers of all widths, all digit strings of any length',
     'Tests convert a few numbers.',
     [L + 'ToolsStrConv.cpp', I + 'Tools.h'],
     m(('conv_type / str_to_type', L + 'ToolsStrConv.cpp')),
     'abstract interpretation of LLVM IR: digit symbols through writer and reader',
     'Every number of digits up to 20 with unknown digits, longer text by its first characters.')

prop('S09', 'A parser carries nothing over from one document to the next',
     'Whatever a parser object read or wrote before, and however that ended, the next document it reads or writes is treated as by a fresh '
     'parser: everything it remembers of a document is reset before the next one begins.',
     [H, F], 'all sequences of complete, failed and abandoned reads and writes with one parser object',
     'Tests reuse a parser only after success and mostly use a fresh one.',
     [I + 'Parser.h', I + 'PJson.h', I + 'PMsgPack.h', I + 'PSrl.h', L + 'PSrl.cpp', L + 'Environment.cpp'],
     m(('clear() when input or output is set', L + 'Environment.cpp')),
     'field effect analysis: fields mutated by operations vs. fields reset by clear()', '')

prop('S10', 'Parsers and sources lent to a call are not used after it',
     'A tree uses the parser and the source or sink given to a store or restore call only during that call: however the call ends, '
     'by return or by exception, later operations on the tree and its nodes do not touch them.',
     [H, F], 'all public operations that take a parser, every way they can end',
     'Tests keep parser and source alive for the whole test and rarely let an operation fail halfway.',
     [L + 'Tree.cpp', I + 'Tree.hpp', L + 'Environment.cpp', L + 'Node.cpp'],
     m(('parsing / parsed state reset on all paths', L + 'Tree.cpp')),
     'path-sensitive must-reset dataflow over normal and exceptional edges', '')

prop('S11', 'Trees own what is inserted into them',
     'Field names, strings and binary blocks inserted into a tree or loaded from a source are copied into storage of the tree '
     'before the inserting call returns, unless the call documents that it only stores to a parser. The tree never refers to memory of the caller '
     'or of a read window afterwards.',
     [H], 'all insert and load paths, all kinds of arguments',
     'Dangling references to test data that is still alive do not show.',
     [L + 'Environment.cpp', L + 'Node.cpp', I + 'Node.hpp', I + 'Environment.h'],
     m(('conv_string / create_value / store copies', L + 'Environment.cpp')),
     'provenance analysis of stored blocks', '')

prop('S12', 'Nesting depth is limited and skipping does not recurse',
     'Documents nested deeper than 128 scopes below the root are rejected with Srl::Exception when loaded into a tree, those up to 128 deep '
     'are loaded as a whole, however many scopes stand side by side. Skipping a scope that is not wanted takes exactly its items up to its '
     'end and needs constant stack however deep it nests.',
     [IN], 'all documents of any nesting depth',
     'One test tries one excessive depth; the limit itself and the skipping paths are not probed.',
     [L + 'Node.cpp', L + 'Tree.cpp'],
     m(('depth test', L + 'Node.cpp'), ('consume_scope', L + 'Node.cpp')),
     'abstract interpretation of LLVM IR with a parser that yields items chosen by the analysis; call depth observed along every path',
     'Depths 0 to 6, 127 to 129, and some up to 188 with five kinds of items between the scopes; all sequences of up to 7 (thorough: 9) '
     'items in a skipped scope, and skipped scopes 300 deep.')

prop('S13', 'Every failure reaches the caller as Srl::Exception',
     'Whatever a document or a request lacks, the caller gets an Srl::Exception: no failure that was detected is swallowed, '
     'turned into another exception type by the library, reported by ending the process, or followed by continued parsing. '
     'Only std::bad_alloc and exceptions of user code pass besides.',
     [IN, F], 'all error paths of the library',
     'Error paths are many and tests take few of them; most only check that something was thrown.',
     [I + 'Exception.h', I + 'In.h', L + 'PJson.cpp', L + 'PMsgPack.cpp', L + 'PSrl.cpp', I + 'Resolve.hpp', L + 'Node.cpp', L + 'ToolsStrConv.cpp'],
     m(('throw sites', 'all of src/lib and include/Srl'), ('error callbacks that throw', L + 'PJson.cpp')),
     'exhaustive query over throw sites, handlers and error callbacks in the compiled program',
     'Sound for the listed constructs: every throw, handler, error callback, noexcept boundary and foreign thrower in the '
     'library and the instantiated templates. Does not decide whether a condition that should be an error is detected.')

prop('S14', 'Looking up what is not there never dereferences nothing',
     'Every access to a field, node or value by name or index, present or not, in a parsed or unparsed tree, yields the field, an empty '
     'result or an Srl::Exception; no path uses a null link or a missing table entry.',
     [IN, H], 'all names, indices and tree states',
     'Tests look up fields that exist and a few that do not.',
     [L + 'Node.cpp', I + 'Node.hpp', I + 'Union.hpp', L + 'Tree.cpp', I + 'Hash.hpp'],
     m(('null tests before use', L + 'Node.cpp')),
     'nullness dataflow from every lookup to every dereference', '')

prop('S15', 'Fixed size destinations are never overrun',
     'Restoring into an array, character array, bit wrapper or other object of fixed size writes only inside it, whatever size '
     'the document claims; a size that does not fit is an Srl::Exception.',
     [IN], 'all destination sizes and all sizes found in documents',
     'Tests restore what fits.',
     [I + 'Resolve.hpp', I + 'BitWrap.h', L + 'ToolsStrConv.cpp'],
     m(('size comparison before copying', I + 'Resolve.hpp')),
     'guard analysis: every write into a destination is dominated by a size test', '')

prop('S16', 'A failed restore leaves pointers owned and intact',
     'When restoring through a raw, unique or shared pointer fails, the pointer still holds what it held before or a complete object, '
     'nothing is freed twice and no new object is leaked.',
     [F, IN], 'every point at which restoring the pointed-to object can throw',
     'Tests restore pointers successfully.',
     [I + 'Resolve.hpp'],
     m(('new object handed over after success', I + 'Resolve.hpp')),
     'ownership typestate over normal and exceptional paths', '')

prop('S17', 'Moving leaves both objects usable and nothing is copied by accident',
     'Objects that own storage or references into it (trees, nodes, environments, heaps, hash tables) cannot be copied where a copy would share '
     'ownership, and moving one transfers all of its state, leaving the source empty and safe to use and destroy.',
     [PR, H], 'all programs that copy, move, assign, reuse or destroy these objects in any order',
     'Tests move a few trees and never use the source afterwards.',
     [I + 'Hash.hpp', I + 'Hash.h', I + 'Heap.h', I + 'Tree.h', I + 'Node.h', L + 'Heap.cpp', L + 'Tree.cpp'],
     m(('deleted and defaulted special members', I + 'Heap.h'), ('move of HTable', I + 'Hash.hpp')),
     'type-level witnesses plus field coverage of special members', '')

prop('S18', 'Independent trees, parsers and threads share no mutable state',
     'Threads that use their own trees, parsers and sources never write to memory they share: no operation writes to any object '
     'of static storage duration, except that registering a type adds to the type registry. Reads of shared tables '
     'are reads of constants.',
     [S, H], 'all interleavings of any operations on separate trees and parsers',
     'All tests are single threaded.',
     [L + 'Registration.cpp', I + 'Registration.h', I + 'TpTools.h', L + 'ToolsStrConv.cpp', L + 'Node.cpp', L + 'fpconv/fpconv.c'],
     m(('constant tables', I + 'TpTools.h'), ('thread safe local statics', L + 'Registration.cpp')),
     'interprocedural effect analysis of all objects of static storage',
     'Sound for direct and pointer-carried writes to every object of static storage in the linked IR of the library and '
     'the instantiated templates; relies on the thread guarantees of the C and C++ libraries and on registration before threads start.')

prop('S19', 'Every charset converter opened is closed exactly once',
     'Each conversion descriptor that was opened successfully is closed exactly once on every way out of the conversion, '
     'failures included, and an invalid descriptor is neither used nor closed.',
     [F, IN], 'all conversion outcomes: success, invalid input, buffer growth, unsupported charset',
     'Leaks of descriptors and double closes do not fail a test.',
     [L + 'ToolsStrConv.cpp'],
     m(('iconv_open / iconv_close', L + 'ToolsStrConv.cpp')),
     'typestate analysis of the conversion descriptors along every path of the abstractly interpreted conversion',
     'iconv is replaced by its contract (any outcome it may have); conversions that grow the buffer more than a few times repeat the states seen.')

prop('S20', 'Every scope that is opened in a document is closed',
     'When a node is written, each scope start handed to the parser is followed by exactly one scope end of the same kind on every normal path, after all of its '
     'content, and the element count announced at its start is the number of elements that follow.',
     [IN, H], 'all trees and user types, generated and streamed',
     'Tests write a few shapes; count and nesting are then trusted by the reader.',
     [L + 'Node.cpp', I + 'Node.hpp', L + 'Environment.cpp', I + 'Context.hpp', I + 'Resolve.hpp'],
     m(('write scope start / end', L + 'Node.cpp')),
     'pairing analysis over the control flow graph', '')

prop('S21', 'A value carries the payload its type announces',
     'Every value that is created, by a parser, by inserting or by conversion, has a payload of the kind its type says: scalars hold the number, strings and '
     'binaries a block with its length and encoding; readers only use the part the type selects.',
     [IN, PR], 'all ways to create a value',
     'A mismatch shows only for the type concerned.',
     [I + 'Value.h', I + 'Value.hpp', L + 'PJson.cpp', L + 'PMsgPack.cpp', L + 'PSrl.cpp'],
     m(('Value constructors', I + 'Value.hpp')),
     'abstract interpretation of value construction', '')

prop('S22', 'Memory a heap hands out is large enough, aligned and not shared',
     'Every block a Heap hands out has at least the requested size, lies inside one live allocation, is aligned as its type requires and '
     'overlaps no other block of any heap that is in use (handed out and neither given back nor cleared), also after blocks have been given '
     'back with put_mem, after clear() and after heaps have been moved; each allocation is freed exactly once.',
     [H], 'all sequences of requests of all sizes and alignments',
     'Overruns by a few bytes stay inside the segment and go unnoticed.',
     [L + 'Heap.cpp', I + 'Heap.h', I + 'Heap.hpp'],
     m(('Heap::alloc', L + 'Heap.cpp'), ('Heap::put_mem', L + 'Heap.cpp')),
     'abstract interpretation of LLVM IR: sequences of heap operations with unknown sizes, blocks as symbolic intervals',
     'Sequences of up to nine operations on up to two heaps; sizes up to 2^25 elements (short sequences) or 1000 (long ones).')

prop('S23', 'Type identifiers are unique and unknown ones rejected',
     'Registering a second type under an identifier that is taken throws Srl::Exception and keeps the first, and restoring a polymorphic '
     'object whose identifier is not registered throws instead of creating anything.',
     [H, IN], 'all orders of registration and all identifiers found in documents',
     'One test covers each case once.',
     [L + 'Registration.cpp', I + 'Registration.h', I + 'Resolve.hpp'],
     m(('insert / find in the registry', L + 'Registration.cpp')),
     'guard analysis of the lookup results', '')

prop('S24', 'JSON output is well formed',
     'For every sequence of values and nested scopes handed to the JSON writer, compact or spaced, the members of a scope are separated by '
     'exactly one comma, each member of an object (and none of an array) has its name in quotes followed by a colon, scopes close with the '
     'bracket that matches their start, texts stand in quotes and other literals do not, and only JSON white space stands between: '
     'the text is a JSON document of exactly the structure that was written.',
     [IN, H], 'all orders of writing, compact and spaced output',
     'The reader is lenient (a missing comma or wrong bracket goes unnoticed), so that reading back does not show it.',
     [L + 'PJson.cpp', I + 'PJson.h'],
     m(('write / write_value', L + 'PJson.cpp'), ('comma and depth state', I + 'PJson.h')),
     'abstract interpretation of LLVM IR: the writer over all orders of operations, its output read with a strict JSON grammar',
     'All orders of up to 4 (thorough: 5) writing operations that any tree can cause, and a set of shapes up to 40 deep; the contents of texts are S03, those of numbers S08 and S25.')

prop('S25', 'The text of a float denotes the digits computed for it',
     'Whatever significant digits and decimal exponent have been computed for a finite double, the decimal text written for it is a JSON number of at most 24 '
     'characters that denotes exactly that sign, those digits in order and that exponent; zero is written as 0.',
     [IN], 'all numbers of digits (1 to 17), all decimal exponents, both signs, all bit patterns of finite doubles',
     'Tests convert a few doubles; most layouts (exponent of one, two, three digits; point inside, before and behind the digits) do not occur.',
     [L + 'fpconv/fpconv.c'],
     m(('emit_digits / filter_special', L + 'fpconv/fpconv.c')),
     'abstract interpretation of LLVM IR with the digits as symbols, the text read by the grammar of numbers',
     'The generation of the digits (Grisu2) is replaced by a stand-in and not decided (see S31).')

prop('S26', 'Charset conversion stays inside its buffers and always ends',
     'Converting text between encodings writes only inside the destination it has made room for, makes progress on every step, '
     'reports invalid text as failure, and returns the exact number of bytes written.',
     [IN], 'all texts, all pairs of encodings, all buffer sizes',
     'Tests convert short texts that fit the first buffer.',
     [L + 'ToolsStrConv.cpp'],
     m(('conv_charset', L + 'ToolsStrConv.cpp')),
     'abstract interpretation of LLVM IR with text, buffer and index of unknown sizes and a contract for iconv',
     'That the converted bytes are the right text is the business of iconv; a conversion is followed through up to six steps of it (symbolic sizes), which all further ones repeat.')

prop('S30', 'Whatever is stored is restored equal',
     'Storing any object graph of supported types with any of the parsers and restoring it yields an equal graph.',
     [IN, PR], 'all values of all supported types',
     'Tests restore a fixed set of objects.',
     [I + 'Resolve.hpp'], m(('Switch specialisations', I + 'Resolve.hpp')),
     na='equality of whole graphs quantifies over run-time contents of containers and user code; no static argument in '
        'reach bounds it. The format-level halves of it are S03 to S08.')

prop('S31', 'Floating point text is shortest and exact',
     'Every finite double is written as decimal text that is read back as the same double.',
     [IN], 'all doubles',
     'Tests convert a few doubles.',
     [L + 'fpconv/fpconv.c', L + 'ToolsStrConv.cpp'], m(('grisu2', L + 'fpconv/fpconv.c')),
     na='correctness of the Grisu digit generation is number theory over 2^64 significands and strtod is outside the repository; '
        'no dataflow or type argument decides it')

prop('S32', 'The hash table behaves as a map',
     'After any sequence of insertions, removals and growth each key maps to its latest value.',
     [H], 'all operation sequences',
     'Tests run a fixed sequence.',
     [I + 'Hash.hpp'], m(('trie of buckets', I + 'Hash.hpp')),
     na='needs a heap-shape invariant of the bucket trie (which entries hang below which hash bits); shape analysis of that '
        'kind is out of reach of the analyses built here')

prop('S33', 'Shared pointers keep their identity',
     'Objects reached through several shared pointers are restored once and shared again.',
     [IN], 'all graphs',
     'Tests use two pointers.',
     [I + 'Resolve.hpp', I + 'Environment.h'], m(('shared table', I + 'Environment.h')),
     na='identity is a relation between run-time keys of documents and objects; there is no static bound for it')
