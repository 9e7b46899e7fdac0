HOOKS = ['0204f7c68c81062ba2e8b4beeb84803c57eaa937', 'ba110ab3d7b8b213810a4b9b6a941ca7f2f678fa']
CB = 'Trusts CBMC and its back ends, goto-cc as front end for the C sources'
C3 = 'Trusts CBMC, the c3c built from this tree (front end and -O0 IR emission), vp/ir2c.py'

prop('C01', 'Compile-time integer arithmetic is exact at every width',
 'Every integer operation the compiler evaluates at compile time (add, subtract, multiply, divide, remainder, negate, shifts, bit operations, comparisons, width conversion, to and from floating point) gives the mathematical result reduced to the two\'s complement width and signedness of its type, for all operand values of all widths from 8 to 128 bits. Division truncates towards zero, and remainder takes the sign of the dividend. No operand makes the evaluation fail, loop or invoke undefined behaviour, division by zero excepted.',
 ['inputs'], 'all operand pairs of all integer types (8..128 bit, signed and unsigned)',
 'The tests fold a few dozen constant expressions; carries, sign corrections and the 128-bit division loop have 2^256 operand pairs.',
 ['src/compiler/bigint.c'],
 ['128-bit kernel @ src/compiler/bigint.c i128_*', 'typed constants @ src/compiler/bigint.c int_*'],
 claim=('proof', T_C + '; loop invariant for the 128-bit division', CB + '. Multiplication is modular: i128_mult64/i128_mult are proved, int_mul is proved over their contracts with two SMT lemmas. Floating point rounding uses CBMC\'s IEEE model.'))

prop('C02', 'Literals and escapes denote exactly the written value',
 'Every integer literal (decimal, hex, octal, binary, with underscores and type suffixes), character literal and string escape denotes exactly the value its digits spell, or is rejected with an error; a value is never silently truncated or wrapped. Hex and base64 byte literals decode to the bytes they encode.',
 ['inputs'], 'all literal spellings',
 'Tests contain some hundreds of literals; off-by-one limits at 64/128 bit and escape edge cases are not enumerated.',
 ['src/compiler/parse_expr.c', 'src/compiler/lexer.c', 'src/utils/stringutils.c'],
 ['integer literal parsing @ src/compiler/parse_expr.c parse_integer', 'escape decoding @ src/compiler/lexer.c'],
 claim=('proof', T_C + '; induction over the digit loops at VERIFY_LOOP annotations', CB + '. Integer tokens: the state before the inductive step is any prefix of digits; the token text around it has at most 16 characters. Floating point literals are left to the C library (strtod).'))

prop('C03', 'Constant conversions and comparisons agree with their run-time meaning',
 'Converting a compile-time constant between integer, floating point, boolean, enum and character types gives the value the same conversion yields at run time; the compiler accepts an implicit constant narrowing only if the value is representable in the target type; comparing two compile-time constants with any comparison operator gives the mathematical answer.',
 ['inputs'], 'all constant values, all pairs of source and target types, all comparison operators',
 'Tests try a handful of constants per conversion; boundary values and mixed signedness are a product space.',
 ['src/compiler/sema_casts.c', 'src/compiler/number.c', 'src/compiler/bigint.c', 'src/compiler/sema_expr.c'],
 ['constant comparison @ src/compiler/number.c expr_const_compare', 'overflow test @ src/compiler/number.c expr_const_will_overflow', 'folding of operators @ src/compiler/sema_expr.c'])

prop('C04', 'Emitted integer arithmetic computes what the language defines',
 'For every integer type, the code emitted for arithmetic, bitwise, shift, comparison (including mixed signedness), saturating, increment and conversion expressions computes the value the language defines for all run-time operand values: two\'s complement wrapping, truncating division, sign-correct widening, and mathematically correct mixed-sign comparison.',
 ['inputs', 'programs'], 'all operand values of every operator and integer type pair',
 'Tests compare emitted IR text or run a few sample operands; wrong predicates or extensions only show for particular sign and width combinations.',
 ['src/compiler/llvm_codegen_expr.c', 'src/compiler/sema_expr.c', 'src/compiler/sema_casts.c', 'src/compiler/types.c'],
 ['operator emission @ src/compiler/llvm_codegen_expr.c llvm_emit_binary', 'integer comparison @ src/compiler/llvm_codegen_expr.c llvm_emit_int_comp', 'casts @ src/compiler/llvm_codegen_expr.c llvm_emit_cast'],
 claim=('translation_validation', T_GEN, C3 + '. Template programs: one function per operator and type pair (tools/gen_c04.py).'))

prop('C05', 'Safe builds trap on exactly the erroneous operations',
 'In a safe build, indexing or slicing outside an array, slice, vector or pointer-free range, dereferencing null through a checked access, dividing by zero, shifting by at least the width, violating a function contract, failing an assert or falling into an unreachable statement stops the program; with operands for which the operation is defined the program continues with the right value. No other operand triggers a check.',
 ['inputs', 'programs'], 'all run-time operand values of each checked operation',
 'Tests show a check fires for one bad operand; the boundary (index == length, last element, end < start, shift == width) and the absence of spurious traps quantify over all operands.',
 ['src/compiler/llvm_codegen_expr.c', 'src/compiler/llvm_codegen.c', 'src/compiler/llvm_codegen_stmt.c', 'src/compiler/sema_expr.c'],
 ['bounds checks @ src/compiler/llvm_codegen_expr.c llvm_emit_array_bounds_check', 'shift checks @ src/compiler/llvm_codegen_expr.c llvm_emit_trap_invalid_shift', 'division checks @ src/compiler/llvm_codegen_expr.c llvm_emit_trap_zero'],
 claim=('translation_validation', T_GEN, C3 + '. Template programs per checked operation; array and slice lengths in the templates are fixed or at most 7, operands are unrestricted.'))

prop('C06', 'Control flow, defers and optionals execute in the defined order',
 'Emitted code for switch (ranges, fallthrough, default, jump tables), loops with labelled break and continue, defer (including defer catch and defer try), optional values with catch, try, or-else, rethrow and force-unwrap, and short circuit operators follows the language definition for every run-time value: each defer runs exactly once, in reverse order, on every way out of its scope, and an optional expression yields its value or its fault, never a mixture.',
 ['inputs', 'programs', 'histories'], 'all run-time values steering the control flow of the template programs',
 'Tests check a single path; each combination of early exit, nesting and fault is a separate path.',
 ['src/compiler/llvm_codegen_stmt.c', 'src/compiler/llvm_codegen_expr.c', 'src/compiler/sema_stmts.c'],
 ['defers @ src/compiler/llvm_codegen_stmt.c', 'switch @ src/compiler/llvm_codegen_stmt.c llvm_emit_switch_body', 'optionals @ src/compiler/llvm_codegen_expr.c'],
 claim=('translation_validation', T_GEN, C3 + '. One template program per construct; loop counts in the templates are at most 7, steering values are unrestricted.'))

prop('C07', 'Aggregates, bitstructs and casts between them keep every bit',
 'Reading a member of a struct, union, array, vector, slice or bitstruct (over an integer or a char array, any bit range, big or little endian, overlapping word boundaries) returns the value last written to it and writing it changes no other member; assignment, literals, parameter passing and return copy the whole value; size, alignment and member offsets follow the declared layout rules.',
 ['inputs', 'programs'], 'all member values and all initial contents for the template types',
 'Tests write a few members with sample values; cross-member clobbering and sign extension depend on all bits.',
 ['src/compiler/llvm_codegen_expr.c', 'src/compiler/sema_decls.c', 'src/compiler/types.c', 'src/compiler/c_abi.c'],
 ['bitstruct access @ src/compiler/llvm_codegen_expr.c llvm_emit_update_bitstruct_array / llvm_extract_bitvalue', 'layout @ src/compiler/sema_decls.c'],
 claim=('translation_validation', T_GEN, C3 + '. Template programs: 19 bitstructs (tools/gen_c07.py) and the aggregates of units/C07/aggr.c3, compared with the C layout of the same declarations.'))

prop('C08', 'C ABI classification follows the platform ABI',
 'A parameter or return value of a function is passed in registers or memory exactly as the platform\'s C ABI assigns it (System V x86-64 in particular): eightbyte classes merge as specified, aggregates over the size limit or with unaligned members go to memory, and register exhaustion moves the whole value to memory.',
 ['inputs', 'programs'], 'all aggregate types up to the ABI\'s size limits and all numbers of free registers',
 'Tests contain some dozens of structs; the classes of two eightbytes and the register counters form a large product.',
 ['src/compiler/abi/c_abi_x64.c', 'src/compiler/abi/c_abi.c', 'src/compiler/abi/c_abi_aarch64.c'],
 ['classification @ src/compiler/abi/c_abi_x64.c x64_classify'])

prop('C09', 'Symbol and declaration tables find exactly what was inserted',
 'A lookup in the compiler\'s symbol, declaration and string tables returns the entry most recently stored under an equal key, and nothing for a key never stored, for every insertion history, across growth and hash collisions; interning returns one and the same symbol for equal texts and different symbols for different texts.',
 ['histories', 'inputs'], 'all insertion and lookup histories, all hash values',
 'Tests exercise tables only through whole compilations with few collisions; probing across a wrap-around or a resize is not reached on purpose.',
 ['src/compiler/symtab.c', 'src/utils/stringutils.c', 'src/utils/lib.h'],
 ['interning @ src/compiler/symtab.c symtab_add', 'tables @ src/compiler/symtab.c'])

prop('C10', 'Compiler input files cannot corrupt the compiler\'s memory',
 'Whatever bytes a project file, manifest, library archive name or command line path contains, the compiler\'s JSON reader, string and path helpers read and write only inside the buffers they were given; well-formed JSON is parsed to the value it denotes, and archive extraction writes only below the chosen directory.',
 ['inputs'], 'all NUL-terminated texts and all path strings',
 'Tests use valid project files only.',
 ['src/utils/json.c', 'src/utils/stringutils.c', 'src/utils/file_utils.c', 'src/utils/unzipper.c'],
 ['JSON reader @ src/utils/json.c', 'string helpers @ src/utils/stringutils.c', 'paths @ src/utils/file_utils.c'])

prop('C20', 'UTF-8, UTF-16 and UTF-32 conversions are lossless and strict',
 'Converting any sequence of code points between UTF-8, UTF-16 and UTF-32 and back yields the same sequence; the length functions give exactly the length the conversion writes; malformed, truncated or overlong input gives a fault; no conversion reads or writes outside its buffers.',
 ['inputs'], 'all code points, all byte and 16-bit unit sequences',
 'The unit tests convert a few sample strings.',
 ['lib/std/core/conv.c3', 'lib/std/core/string.c3', 'lib/std/core/string_iterator.c3'],
 ['conversions @ lib/std/core/conv.c3'],
 claim=('other', T_C3, C3 + '.'))

prop('C21', 'Base64, base32 and hex encodings decode to the original bytes',
 'Decoding the encoding of any byte sequence yields that sequence, for every alphabet and padding option; the computed lengths are exactly what is written; text that is not a valid encoding gives a fault; nothing outside the given buffers is touched.',
 ['inputs'], 'all byte sequences, all texts, all padding choices',
 'Tests use RFC sample vectors.',
 ['lib/std/encoding/base64.c3', 'lib/std/encoding/base32.c3', 'lib/std/encoding/hex.c3', 'lib/std/encoding/codec.c3'],
 ['codecs @ lib/std/encoding'],
 claim=('other', T_C3, C3 + '.'))

prop('C22', 'Hashes and checksums match their definition, whole or in pieces',
 'CRC-32, CRC-64, Adler-32, FNV-1a, MD5, SHA-1, SHA-256, HMAC and the non-cryptographic hashes give the value of their published definition for every message, and feeding a message in any sequence of pieces gives the same result as feeding it at once.',
 ['inputs', 'histories'], 'all messages and all ways of splitting them',
 'Tests check a few published vectors.',
 ['lib/std/hash/crc32.c3', 'lib/std/hash/crc64.c3', 'lib/std/hash/adler32.c3', 'lib/std/hash/fnv32a.c3', 'lib/std/hash/md5.c3', 'lib/std/hash/sha1.c3', 'lib/std/hash/sha256.c3'],
 ['hash functions @ lib/std/hash'],
 claim=('other', T_C3, C3 + '.'))

prop('C23', 'Sorting yields an ordered permutation; searching finds the right place',
 'Every sort leaves the elements an ordered permutation of the input for any comparator that is a total preorder (insertion sort keeps equal elements in order; counting sort takes unsigned keys); binary search on an ordered sequence returns the position of the searched value, or where it belongs.',
 ['inputs'], 'all element sequences and keys',
 'Tests sort a few arrays; pivot and boundary cases depend on the values.',
 ['lib/std/sort/quicksort.c3', 'lib/std/sort/insertionsort.c3', 'lib/std/sort/countingsort.c3', 'lib/std/sort/binarysearch.c3', 'lib/std/sort/sorted.c3'],
 ['sorts @ lib/std/sort'],
 claim=('other', T_C3, C3 + '.'))

prop('C24', 'Growable sequences behave as mathematical sequences',
 'Every operation on List, ElasticArray, RingBuffer and LinkedList changes the sequence of elements exactly as documented (insert, remove, reverse, append, pop, swap), keeps all other elements in order, never loses or duplicates an element, never accesses memory outside its storage and releases what it allocated.',
 ['histories', 'inputs'], 'all operation sequences, element values and positions',
 'Tests run fixed scripts with small lists; growth boundaries and positions are parameters.',
 ['lib/std/collections/list.c3', 'lib/std/collections/elastic_array.c3', 'lib/std/collections/ringbuffer.c3', 'lib/std/collections/linkedlist.c3'],
 ['sequences @ lib/std/collections'],
 claim=('other', T_C3, C3 + '.'))

prop('C25', 'Maps and sets hold exactly the entries stored and not removed',
 'After any history of set, remove, clear and growth, looking up a key in HashMap, LinkedHashMap, HashSet or LinkedHashSet gives the value last stored under it and nothing for other keys; the length is the number of distinct keys; iteration visits each entry once, linked variants in insertion order.',
 ['histories', 'inputs'], 'all operation histories and all keys including colliding hashes',
 'Tests insert distinct sequential keys.',
 ['lib/std/collections/hashmap.c3', 'lib/std/collections/hashset.c3', 'lib/std/collections/linked_hashmap.c3', 'lib/std/collections/linked_hashset.c3'],
 ['maps @ lib/std/collections/hashmap.c3'])

prop('C26', 'Priority queues always yield the best element',
 'Whatever is pushed and removed in whatever order, first and pop give a smallest (or, for the maximum variant, largest) element still in the queue, and the queue holds exactly the elements pushed and not popped.',
 ['histories', 'inputs'], 'all push/pop/remove histories and priorities',
 'Tests push one fixed list.',
 ['lib/std/collections/priorityqueue.c3'],
 ['heap @ lib/std/collections/priorityqueue.c3'],
 claim=('other', T_C3, C3 + '.'))

prop('C27', 'Bit sets, bit order and bit tricks are exact',
 'Bit set and enum set operations (set, unset, flip, union, intersection, difference, xor, cardinality, iteration) agree with set algebra for all members; bit order reads and writes of big and little endian values at any offset are inverse and place each byte as specified; bit rotation, reversal, byte swap, population count and the hacker\'s-delight macros equal their definition for every value.',
 ['inputs', 'histories'], 'all values and members',
 'Tests use a few values.',
 ['lib/std/collections/bitset.c3', 'lib/std/collections/enumset.c3', 'lib/std/core/bitorder.c3', 'lib/std/bits.c3'],
 ['bit sets @ lib/std/collections/bitset.c3', 'bit order @ lib/std/core/bitorder.c3'],
 claim=('other', T_C3, C3 + '.'))

prop('C28', 'String operations agree with their definition on every string',
 'Searching, trimming, splitting, stripping, replacing, counting, comparing, case conversion and concatenation on String and DString give the result their documentation defines for every byte content and length, share or own memory as documented, and never access memory outside the string.',
 ['inputs'], 'all strings up to the bound, all patterns',
 'Tests use a few literals; empty patterns, matches at the ends and overlapping matches are a product space.',
 ['lib/std/core/string.c3', 'lib/std/core/dstring.c3', 'lib/std/ascii.c3'],
 ['strings @ lib/std/core/string.c3'])

prop('C29', 'Parsing and printing numbers are inverse and detect overflow',
 'Parsing a decimal, hexadecimal, octal or binary integer text gives its value or a fault if it is malformed or does not fit the type; printing any integer with any base, width, padding and sign flags produces the text that reads back as the same value.',
 ['inputs'], 'all texts up to the bound, all values of every integer type',
 'Tests print and parse a few values; the limits of each width and sign differ.',
 ['lib/std/core/string.c3', 'lib/std/io/formatter.c3', 'lib/std/io/formatter_private.c3'],
 ['parsing @ lib/std/core/string.c3', 'printing @ lib/std/io/formatter_private.c3'])

prop('C30', 'Allocators return aligned, disjoint blocks that keep their content',
 'Every allocator (arena, dynamic arena, backed arena, temp, on-stack, tracking, heap) returns blocks of the requested size that are aligned as requested, lie inside its memory, never overlap a live block, are zeroed on request, and keep their content on resize; marking and resetting frees exactly the later blocks.',
 ['histories', 'inputs'], 'all sequences of acquire, resize, release and reset with all sizes and alignments',
 'Tests allocate a few sizes.',
 ['lib/std/core/allocators', 'lib/std/core/mem_allocator.c3'],
 ['allocators @ lib/std/core/allocators'])

prop('C31', 'Run-time integer and 128-bit support routines are exact',
 '128-bit division, remainder, multiplication, shifts and conversions to and from floating point in the run-time library equal exact arithmetic rounded once, for all operands; overflow-detecting, saturating, absolute, power, gcd, integer square root and logarithm helpers give the mathematically defined result or the documented fault.',
 ['inputs'], 'all operand values',
 'Tests check a few operands of a 2^256 space.',
 ['lib/std/math/runtime/i128.c3', 'lib/std/math/math.c3'],
 ['128-bit runtime @ lib/std/math/runtime/i128.c3', 'integer helpers @ lib/std/math/math.c3'])

prop('C32', 'URLs parse, print and percent-encode without loss',
 'Percent-decoding the percent-encoding of any byte string yields that string in every mode, encoded text contains only characters allowed in its mode, malformed escapes give a fault; parsing a URL never accesses memory outside the text and yields components that print back to an equivalent URL; textual IP addresses parse to the address they denote.',
 ['inputs'], 'all byte strings',
 'Tests use sample URLs.',
 ['lib/std/net/url_encoding.c3', 'lib/std/net/url.c3', 'lib/std/net/inetaddr.c3'],
 ['encoding @ lib/std/net/url_encoding.c3', 'addresses @ lib/std/net/inetaddr.c3'])

prop('C33', 'Path operations preserve the meaning of the path',
 'Normalising a path is idempotent, removes every "." and resolvable ".." component, keeps absolute paths absolute, and never reads or writes outside the path\'s text; base name, directory name and extension partition the path as documented; appending and testing parents agree with component-wise concatenation.',
 ['inputs'], 'all path strings up to the bound, POSIX and Windows flavour',
 'Tests contain a table of sample paths.',
 ['lib/std/io/path.c3'],
 ['normalisation @ lib/std/io/path.c3'])

prop('C34', 'Calendar conversions are consistent for every instant',
 'Converting a date and time to seconds and back yields the same fields; month lengths, leap years, weekdays and days of year follow the Gregorian calendar; adding and subtracting years, months, weeks and days moves as documented; durations convert between units without error up to the representable range.',
 ['inputs'], 'all instants within the representable range',
 'Tests check a few dates.',
 ['lib/std/time/datetime.c3', 'lib/std/time/time.c3'],
 ['calendar @ lib/std/time/datetime.c3'])

prop('C35', 'Big integers obey the laws of integer arithmetic',
 'Addition, subtraction, multiplication, division, remainder, shifts, comparison, power, gcd and conversion to and from text on big integers give the exact integer result for all values within their capacity.',
 ['inputs'], 'all values within the capacity',
 'Tests use a few values.',
 ['lib/std/math/bigint.c3'],
 ['big integers @ lib/std/math/bigint.c3'])

prop('C36', 'Streams deliver each byte once, in order, within limits',
 'Readers and writers over byte buffers, limited, buffered and multi streams deliver exactly the bytes written, in order and once, for every mix of read sizes, seeks and pushbacks; varint encoding decodes to the value encoded; end of stream and limits give the documented faults and no access leaves the buffer.',
 ['histories', 'inputs'], 'all contents and all sequences of operations',
 'Tests read a few strings.',
 ['lib/std/io/stream.c3', 'lib/std/io/stream/bytereader.c3', 'lib/std/io/stream/bytewriter.c3', 'lib/std/io/stream/bytebuffer.c3', 'lib/std/io/stream/limitreader.c3', 'lib/std/io/stream/buffer.c3'],
 ['streams @ lib/std/io/stream'])

prop('C37', 'Random numbers stay inside the requested range',
 'Every bounded random number lies within the requested half-open or closed range for every generator state, floating point results lie in [0, 1), and a generator filled with bytes produces the same sequence however it is asked for them.',
 ['inputs', 'histories'], 'all generator states and all bounds',
 'Tests sample a few states.',
 ['lib/std/math/random.c3', 'lib/std/math/random'],
 ['ranges @ lib/std/math/random.c3'])

prop('C38', 'The QOI codec is lossless and safe on any input',
 'Decoding the encoding of any image yields the same pixels; decoding arbitrary bytes gives an image of the declared size or a fault, never an access outside the input or output buffer.',
 ['inputs'], 'all images and all byte strings up to the bound',
 'Tests encode two images.',
 ['lib/std/compression/qoi.c3'],
 ['codec @ lib/std/compression/qoi.c3'])

prop('C50', 'Compilation is deterministic',
 'Compiling the same sources with the same options yields the same output, whatever the number of threads, file order within a module and repetition.',
 ['schedules', 'configurations'], 'all thread schedules and all orders of input files',
 'Each test compiles once.',
 ['src/compiler/compiler.c', 'src/utils/taskqueue.c'],
 ['task queue @ src/utils/taskqueue.c'],
 na='A hyperproperty of the whole compiler over thread schedules: relational contracts over all of sema and LLVM are out of reach, and no verifier here proves C contracts over pthreads.')
prop('C51', 'Accepted programs are type correct; rejected programs have an error',
 'The compiler accepts a program exactly if it obeys the language rules, and reports an error at the offending place otherwise; it never crashes on any source text.',
 ['programs'], 'all source texts',
 'About 1000 of the tests are such programs, one text each.',
 ['src/compiler/sema_expr.c', 'src/compiler/sema_stmts.c', 'src/compiler/sema_decls.c', 'src/compiler/parse_stmt.c'],
 ['semantic analysis @ src/compiler/sema_expr.c'],
 na='There is no formal definition to take contracts from, and the AST passes (60k lines of mutually recursive functions over a global heap) need inductive heap predicates CBMC contracts cannot express; the decidable parts are claimed separately (C01-C03, C08, C09).')
prop('C52', 'Thread primitives, channels and pools neither lose nor duplicate work',
 'Every item sent on a channel is received exactly once and in order per sender, every task pushed to a pool runs exactly once, and closing or joining never deadlocks.',
 ['schedules'], 'all interleavings',
 'Tests run one schedule of a small scenario.',
 ['lib/std/threads/buffered_channel.c3', 'lib/std/threads/unbuffered_channel.c3', 'lib/std/threads/fixed_pool.c3', 'lib/std/threads/pool.c3'],
 ['channels @ lib/std/threads'],
 na='The obligation is over interleavings of code built on pthread mutexes and condition variables; the deductive route (resource invariants in a concurrent separation logic) has no verifier here that accepts C3, its IR or C.')
