#!/usr/bin/env python3
# writes properties.jsonl (kept as code so that statements stay readable)
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe or [], "hook_needed": None}})
ALL = ["src/blake1_224.h","src/blake1_256.h","src/blake1_384.h","src/blake1_512.h","src/blake2.h","src/blake2s.h","src/crc_32.h","src/cshake.h","src/fnv.h","src/has_160.h","src/md2.h","src/md4.h","src/md5.h",
       "src/ripemd_128.h","src/ripemd_160.h","src/ripemd_256.h","src/ripemd_320.h","src/sha1.h","src/sha2_224.h","src/sha2_256.h","src/sha2_384.h","src/sha2_512.h","src/sha2_512_224.h","src/sha2_512_256.h",
       "src/sha3.h","src/siphash.h","src/sm3.h","src/tiger.h","src/tuple_hash.h","src/whirlpool.h"]
m = lambda n, w: {"name": n, "where": w}
p("C01", "Every unkeyed digest equals the one its published specification defines",
  "For each fixed-output algorithm of the library (BLAKE, BLAKE2, CRC-32, FNV, HAS-160, MD2/4/5, RIPEMD, SHA-1, SHA-2, SHA-3, SM3, Tiger, Whirlpool and all their variants), hashing any byte string with a fresh object and finalizing it yields exactly the digest that the algorithm's published specification assigns to that string. This includes the empty message, every message length relative to the block size, and every byte value at every position.",
  ["inputs"], "all byte strings (checked: all lengths up to several blocks, all 1- and 2-byte messages, every byte value at every position of the first blocks, several bases)",
  "Tests compare about ten messages per algorithm; padding has a distinct case for every length modulo the block size, tables have thousands of entries, and the tests reach only the few lengths and entries their strings happen to hit.",
  [f for f in ALL if f not in ("src/cshake.h", "src/tuple_hash.h", "src/siphash.h")],
  [m("padding and length encoding", "finalize() of every class"), m("compression functions and constant tables", "addDataImpl() of every class"), m("digest serialization and truncation", "toArray() / toVector()")], observe=["toArray()", "toVector()"])
p("C02", "The digest depends only on the concatenation of the data, not on how it is split",
  "Feeding a message to a hash object in any sequence of pieces, including empty pieces and pieces larger than the internal block, yields the same digest as feeding the whole message in one call, for every algorithm with a byte-stream interface (all but TupleHash, whose pieces are tuple elements).",
  ["inputs", "histories"], "every split of every message (checked: every buffer fill level x every piece length, and all sequences of boundary-sized pieces to a depth)",
  "Tests use a handful of splits; the buffering code has one case per (bytes already buffered, piece length) pair, and errors may need two or three specific consecutive pieces.",
  [f for f in ALL if f != "src/tuple_hash.h"], [m("partial block buffer", "addData(Span) and class Buffer in every header")],
  state=[{"name": "buffered bytes", "meaning": "message tail not yet compressed", "where": "m_buffer"}, {"name": "length counter", "meaning": "bytes or bits compressed so far", "where": "m_sizeCounter"}], observe=["digest after finalize()"])
p("C03", "Digests stay correct for very long messages",
  "For messages whose length crosses 2^29, 2^31 or 2^32 bytes, fed in one call or in many, every algorithm still yields the specified digest. Up to the specification's own maximum, the encoded message length never wraps, truncates or loses a carry.",
  ["inputs"], "message lengths up to the specification's maximum (checked: real contiguous messages beyond 2^32 bytes, and length counters placed next to every power-of-two boundary)",
  "No test hashes more than a few megabytes, so no counter ever exceeds 32 bits, and 128-bit counters never see a carry.",
  [f for f in ALL if f not in ("src/tuple_hash.h",)], [m("length counters and their encoding", "m_sizeCounter, class Uint128, finalize()"), m("block loop over large spans", "addData / addDataImpl")], observe=["digest after finalize()"])
p("C04", "SHAKE and cSHAKE are correct for every output length, name and customization",
  "For every requested output length, function name and customization string, the output equals what FIPS 202 and SP 800-185 define for the message, and is exactly as long as requested. With both strings empty cSHAKE equals SHAKE, and a shorter output is a prefix of a longer one for the same other inputs.",
  ["inputs"], "all output lengths, names, customization strings and messages (checked: all lengths across several rate blocks, all string length pairs in boundary sets, message lengths across the rate)",
  "Tests use two published examples per function with one output length; multi-block squeezing, strings that need two length bytes, and strings ending on a rate boundary are never run.",
  ["src/sha3.h", "src/cshake.h"], [m("squeezing loop and truncation", "src/sha3.h Keccak::finalize"), m("bytepad/encode_string/left_encode", "src/cshake.h constructor"), m("plain/customized switch", "src/cshake.h m_customized")], observe=["toVector()", "toString()"])
p("C05", "TupleHash is an injective, unambiguous hash of the tuple of its elements",
  "For every tuple of byte strings (including the empty tuple and empty elements), output length and customization string, the output equals SP 800-185 TupleHash of exactly that tuple. Moving bytes across element boundaries, or changing the number of empty elements, changes the output.",
  ["inputs", "histories"], "all tuples (checked: all tuples of up to 3-4 elements over boundary lengths, all compositions of short strings, all element lengths across length-encoding boundaries)",
  "Tests check three published tuples; element lengths where the encoded bit length grows a byte, empty elements and elements around the rate are not run.",
  ["src/tuple_hash.h", "src/cshake.h", "src/sha3.h"], [m("left_encode of element length", "addDataImpl / nextData"), m("right_encode of output length", "finalize()")], observe=["toVector()"])
p("C06", "SipHash is SipHash-2-4 of the given key and message",
  "For every 16-byte key and every message, the result is the published SipHash-2-4 value, every bit of the key influences it, and the key bytes are only needed during construction.",
  ["inputs"], "all keys and messages (checked: every single-byte and single-bit key variation, all message lengths modulo 256 and beyond)",
  "Tests use two keys and a few lengths; the final block encodes the length modulo 256, which needs messages of more than 255 bytes in every residue.",
  ["src/siphash.h"], [m("key loading", "constructor"), m("length byte and final block", "finalize()")], state=[{"name": "m_key", "meaning": "key words kept for reset()", "where": "src/siphash.h"}], observe=["toArray()"])
p("C07", "reset() makes an object indistinguishable from a newly constructed one",
  "After any history of construction, feeding, finalizing and resets, calling reset() leaves the object computing exactly what a new object constructed with the same parameters (key, output length, name, customization) computes, for every subsequent message.",
  ["histories"], "all operation histories (checked: all legal histories to a depth over boundary-sized operations, each followed by reset and a family of probe messages)",
  "Tests barely call reset(); leftovers can hide in any field (buffer, counter, flags, cached output) and show only for particular earlier histories.",
  ALL, [m("reset()", "every class")], observe=["digest of the next message"])
p("C08", "Copies and moves are independent values that carry the full state",
  "Copying or moving a hash object at any point (fresh, mid-message, finalized) by construction, assignment or swap yields an object that continues exactly as the original would have, with its parameters. Afterwards no operation on one object affects another, assignment replaces everything the target held, and self-assignment changes nothing.",
  ["histories"], "all histories over two or three objects (checked: all operation sequences to a depth, including between objects of different parameters)",
  "Tests never copy, assign or move a hash object in mid-message and never continue using both.",
  ALL, [m("implicit special members", "every class"), m("hand written special members", "src/cshake.h CShake and CSHAKEAlias; aliases in src/sha3.h, src/tuple_hash.h")], observe=["digests of all objects"])
p("C09", "All ways of reading the result agree and leave it unchanged",
  "After finalizing, the hex string (lowercase, two digits per byte), the vector, the array and the conversion to any unsigned integer type (leading digest bytes, big-endian) all denote the same digest, of the algorithm's documented length. Reading in any order, any number of times and through const references always gives the same answers.",
  ["inputs", "histories"], "all digests and all accessor sequences (checked: all sequences of accessors to a depth, every byte value at every digest position, every unsigned width)",
  "Tests read mostly one accessor per message and a single integer width; wrong formatting of particular byte values or accessors that change state are not sampled.",
  ALL, [m("toString/toVector/toArray/operator T", "every class")], observe=["toString()", "toVector()", "toArray()", "operator T()"])
p("C10", "Equality and std::hash of finalized objects are consistent with their digests",
  "Finalized objects fed the same data with the same parameters compare equal and have equal std::hash, objects whose digests differ compare unequal, equality is an equivalence relation and != is its negation. std::hash equals the conversion of the object to size_t.",
  ["inputs", "histories"], "all pairs of finalized objects (checked: all pairs over a message family reached by different histories, and every single-bit difference in the finalized state)",
  "Tests compare two pairs per class; a comparison that skips a word, or depends on leftovers of the history, passes them.",
  ALL, [m("operator== / operator!=", "every class"), m("std::hash specializations", "end of every header")], observe=["operator==", "std::hash"])
p("C11", "All input overloads hash exactly the bytes they are given",
  "Pointer and length, byte array, arrays of any element type, spans of any element type (const or not, dynamic or fixed extent) and containers convertible to spans all feed exactly the object representation of the elements, in order, whatever the alignment of the data. Every feeding call and finalize() returns the same object, so calls can be chained.",
  ["inputs"], "all overloads, element types, lengths and alignments (checked: all combinations over the element types of each width, lengths across two blocks and 16 alignments, with every buffer state class)",
  "Tests use int spans once and char arrays; other widths, misaligned data and overload use in mid-block are not run.",
  ALL + ["src/gsl/span"], [m("addData / nextData overloads", "every class"), m("unaligned loads", "class Loader in every header")], observe=["digest", "returned reference"])
p("C12", "Hashing touches only the bytes it was given and its own object",
  "No operation reads outside the given input range, writes to the input, keeps a reference to it after returning, writes outside the object, reads indeterminate values or otherwise executes undefined behaviour. The result is independent of what memory held before.",
  ["inputs", "histories"], "all inputs and legal histories (checked: all lengths and both page edges with guard pages, all histories to a depth under address/undefined sanitizers, several memory fills)",
  "The tests' sanitizer build only sees the few lengths and histories the tests run, and its inputs are surrounded by readable memory.",
  ALL + ["src/gsl/span"], [m("index arithmetic on buffers and spans", "class Buffer, addData, finalize, toArray"), m("GSL span", "src/gsl/span")], observe=["faults", "sanitizer reports", "digest"])
p("C13", "Distinct objects can be used concurrently, as can one object read-only",
  "Threads that use different hash objects (even of the same class, and the first use in the process) never affect each other's results and do not race, under any schedule. Several threads may read one finalized object concurrently.",
  ["schedules"], "all interleavings of 2-3 threads (checked: all inequivalent interleavings of the memory accesses of 2-3 threads with distinct or shared-const objects)",
  "Tests are single threaded; any hidden mutable static (scratch buffer, lazily built table, cache) passes them.",
  ALL, [m("constant tables only, no mutable globals", "every header"), m("namespace-scope helpers", "leftEncode in src/cshake.h, rightEncode in src/tuple_hash.h")], observe=["digests", "conflicting accesses"])
p("C14", "The same program gives the same digests in every supported build configuration",
  "For every supported language standard (C++14, 17, 20, 23), compiler, optimization level and setting of NDEBUG, every algorithm compiles and gives the same results for the same inputs.",
  ["configurations", "inputs"], "standard x compiler x optimization x assertions (checked: the complete matrix over the installed compilers, each on a common set of operation histories)",
  "The test build is one configuration; alternative code behind language-version and library-feature checks is not compiled at all by it.",
  ALL + ["src/gsl/span"], [m("std::span / gsl::span switch", "USE_STD_SPAN_CHOCOBO1_HASH"), m("constexpr and inline-variable switches", "CONSTEXPR_CPP17_CHOCOBO1_HASH, INLINE_CLASS_VARIABLE_CHOCOBO1_HASH")], observe=["digests per configuration"])
p("C15", "Digests computed at compile time equal those computed at run time",
  "For every algorithm offered in constant expressions (C++17 and later), hashing a message in a constant expression is accepted by the compiler and gives the same digest as hashing it at run time, for any length and any split.",
  ["inputs", "configurations"], "all messages usable in constant expressions (checked: boundary lengths and splits per algorithm with both compilers, C++17 and C++20)",
  "The existing compile-time tests evaluate a single two-byte message per algorithm; other lengths take different branches, which may not be constant expressions or may differ.",
  [f for f in ALL if f not in ("src/sha3.h", "src/cshake.h", "src/tuple_hash.h", "src/has_160.h")], [m("constexpr member functions", "every constexpr class")], observe=["constexpr results"])
p("C16", "Headers work alone, in any order and combination, and in any number of units",
  "Each public header compiles on its own, any set of headers in any order compiles and every algorithm gives the same results, and any number of translation units including any headers link into one program that gives the same results.",
  ["programs", "configurations"], "all inclusion orders and link orders (checked: every header first with all others after it, all ordered pairs, one unit per header linked in every rotation)",
  "The tests include one header per translation unit in one link order; shared helpers come from whichever header is seen first, and the linker keeps one copy of each helper.",
  ALL, [m("guarded shared helpers", "CHOCOBO1_HASH_*_IMPL macros and include guards"), m("inline functions and variables", "every header")], observe=["compile and link results", "digests"])
p("C17", "The hash program prints the digest of exactly the bytes it reads",
  "For every offered algorithm option and its arguments, the program prints the lowercase hex digest that the library defines for the complete contents of the named file or of standard input, two spaces and the name as given. The size of the file and how the reads are split or interrupted do not matter. The usage text names exactly the options offered, with the arguments each takes.",
  ["inputs", "fault_sequences"], "all options, contents, sizes and read segmentations (checked: every option, sizes around the read buffer, and all short-read/interrupt patterns to a bound)",
  "There are no tests of the program at all.",
  ["src/program/main.cpp"], [m("option table", "getHash / enum Hash"), m("read loop", "readNPrint / readAllNPrint"), m("argument passing", "runHash")], observe=["stdout", "exit status"])
p("C18", "The hash program never reports a digest for input it could not read",
  "If the input cannot be opened or a read fails at any point, the program prints no digest and exits with a failure status. Wrong or missing arguments never yield a digest, an abnormal termination or silence.",
  ["fault_sequences", "inputs"], "all failure points (checked: failure of the open and of each read call in turn, every malformed argument vector over a small alphabet)",
  "There are no tests of the program at all.",
  ["src/program/main.cpp"], [m("stream state check", "readNPrint / readAllNPrint"), m("argument validation", "runHash, printUsage")], observe=["stdout", "exit status"])
p("C19", "Digests do not depend on the machine's byte order or word size",
  "On big-endian and little-endian machines, 32 or 64 bits wide, every algorithm gives the same digests and conversions to integers.",
  ["configurations", "inputs"], "byte orders and word sizes (checked: the headers compiled for other targets and executed there on a common set of operation histories)",
  "Tests only ever run on one little-endian 64-bit machine, although the documentation promises big-endian support.",
  ALL, [m("byte-wise loads and stores", "class Loader, finalize(), toArray()")], observe=["digests on the other target"])
p("C20", "A failed memory allocation leaves objects usable and leaks nothing",
  "If an allocation fails while constructing, copying, assigning, finalizing or reading a result as string or vector, the failure surfaces as std::bad_alloc, nothing leaks, and objects not being modified are unchanged. After reset() or assignment a modified object is fully usable again. Conversions to integers, std::hash and comparisons need no memory and never fail.",
  ["fault_sequences", "histories"], "all failing allocations (checked: each allocation of each operation of a history failed in turn)",
  "Tests never see an allocation fail.",
  ["src/sha3.h", "src/cshake.h", "src/tuple_hash.h"] + [f for f in ALL if f not in ("src/sha3.h", "src/cshake.h", "src/tuple_hash.h")], [m("owning members", "m_final in src/sha3.h, unique_ptr members in src/cshake.h"), m("result strings and vectors", "toString / toVector")], observe=["exception", "digest afterwards", "live allocations"])
p("C21", "The hash program ends with success only if it wrote the whole digest",
  "If writing the digest fails at any point (a full disk, a closed or read-only output, an input/output error), the program ends with a failure status, and not abnormally. If the system accepts the output only in small parts, all of it is still written. A digest line that is cut short is never reported as success.",
  ["fault_sequences", "inputs"], "all outcomes of all writes (checked: every sequence of outcomes of the first writes to a depth, a failure at every write of long answers, every file size limit within an answer)",
  "There are no tests of the program at all, and output never fails in ordinary use.",
  ["src/program/main.cpp"], [m("printing the digest", "readNPrint / readAllNPrint"), m("exit status", "main()")], observe=["stdout", "exit status"])
p("C22", "Results do not depend on the state of the process around the objects",
  "Every digest, conversion and text form is the same under every global C++ locale and C locale, floating-point rounding mode, denormal mode, set of enabled floating-point traps, content of errno and of fresh memory. It does not matter which thread makes which call on an object, as long as the calls are ordered, nor whether the threads that made earlier calls have ended, nor whether the calls come from destructors that run after main().",
  ["configurations", "histories"], "all ambient states and all assignments of calls to threads (checked: every combination of the listed ambient states, each in a fresh process; every assignment of eight calls to two threads)",
  "Tests run with the classic locale, the default floating-point environment and one thread; the library computes encoded lengths in floating point.",
  ALL, [m("length encoding by log2/lround", "leftEncode in src/cshake.h, rightEncode in src/tuple_hash.h"), m("formatting", "toString()"), m("constant tables", "every header")], observe=["digest", "toString()", "integer conversions"])
p("C23", "Hashing takes time in proportion to the data, and constant memory",
  "Feeding data takes time in proportion to its length, however it is divided into calls and however much was fed before or is buffered; copying, assigning, comparing and resetting an object do not get slower or larger with the data it has seen; finalizing and reading take time and memory in proportion to the digest length. An object's memory does not grow with the data, and repeated use keeps no memory. The hash program takes time in proportion to its input and constant memory, except that TupleHash keeps its input.",
  ["inputs", "histories"], "all buffer fills, divisions into calls and amounts of data (checked: the fills, lengths, division sizes and amounts listed in DESIGN.md, by counting executed basic blocks and bytes of memory)",
  "Tests look only at digests of short messages; growth of time or memory never makes them fail.",
  ALL + ["src/program/main.cpp"], [m("feeding", "addData / addDataImpl"), m("reading", "toString / toVector / finalize in src/sha3.h"), m("streaming", "readNPrint in src/program/main.cpp")], observe=["basic blocks executed", "bytes allocated"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
