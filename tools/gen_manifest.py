#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per built check (checks/cNN.py), the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {
 "C01": ("exploration", "exhaustive enumeration of bounded message spaces on the real classes against reference implementations",
   "All messages of the stated families (every length to several blocks, all 1-2 byte messages, every byte value at every position, all pairs of extreme words, dense long messages) are executed on the real code; other messages of those lengths are not. Trusts ref/, which setup validates against hashlib, OpenSSL, libgcrypt, zlib and published vectors."),
 "C02": ("model_checking", "explicit-state exploration of the buffering automaton (fill level x piece length) and of all piece sequences to a depth, executed on the real classes",
   "Every (buffer fill, piece length) transition and all sequences over an 11-letter boundary alphabet to the depth are run on the implementation itself; the model is the digest of the concatenation given in one call."),
 "C03": ("model_checking", "state exploration of length counters: every counter boundary injected, and real messages beyond 2^32 bytes",
   "Counters are located by observing how the object representation changes block by block and placed next to every power of two; digests are compared with the reference run from the same counter. Contiguous messages beyond 4 GiB are hashed for real. A representation in which the counter cannot be located is covered by the real long messages only."),
 "C04": ("model_checking", "exhaustive enumeration of output lengths, name/customization lengths and message lengths on the real classes against reference implementations",
   "All combinations of the stated boundary sets are executed; the contents of strings and messages are fixed patterns."),
 "C05": ("model_checking", "exhaustive enumeration of tuples (operation sequences) on the real classes, with reference digests and a global injectivity check",
   "All tuples within the stated bounds are executed and all digests must be pairwise different."),
 "C06": ("model_checking", "exhaustive enumeration of key variations and message lengths on the real class",
   "All single-bit and single-byte key variations, all message lengths within the bound, all splits."),
 "C07": ("model_checking", "explicit-state exploration of all operation histories to a depth, each ended by reset and probe messages, on the real classes",
   "Model: digest of a fresh object with the same parameters. All legal histories to the depth over a boundary alphabet."),
 "C08": ("model_checking", "explicit-state exploration of all operation sequences over two or three objects, on the real classes",
   "Model: each slot is its parameters and fed bytes, and predicts the digest of a fresh object given those. All sequences to the depth, every slot checked at the end of every sequence."),
 "C09": ("model_checking", "exhaustive accessor sequences to a depth, and all digest byte values per position, on the real classes",
   "All accessor sequences to the depth over all algorithms; byte value coverage is enumerated until each (position, value) is seen."),
 "C10": ("model_checking", "exhaustive pairwise comparison of finalized states reached by different histories, plus every single-bit state difference",
   "All pairs of the message family, all bit flips of the finalized object representation where the type is trivially copyable."),
 "C11": ("exploration", "exhaustive enumeration of overload x element type x alignment x buffer state on the real classes",
   "All combinations in the stated bounds are executed."),
 "C12": ("model_checking", "exhaustive histories and lengths under guard pages, poisoned memory and AddressSanitizer/UBSan monitors",
   "All histories and lengths in the bounds are run with the sanitizers as monitor and with inputs ending at unmapped pages; absence of faults is shown on the explored executions."),
 "C13": ("model_checking", "stateless model checking of the real code: compiler-instrumented memory accesses under a controlled scheduler with partial-order reduction",
   "All inequivalent interleavings of the accesses to shared memory of the threads are explored; when threads share no conflicting location the exploration is complete with one execution per operation order."),
 "C14": ("exploration", "complete configuration matrix, one fixed exhaustive operation-history set executed per configuration",
   "All installed compilers x standards x optimization levels x assertion settings; each must give the same results as the others (their correctness is C01-C12). Quick runs a pairwise covering of the matrix, thorough all of it."),
 "C15": ("exploration", "exhaustive enumeration of boundary lengths and splits evaluated by the compilers' constant evaluators",
   "Every algorithm x boundary length x split is evaluated at compile time by both compilers and compared with the same call at run time."),
 "C16": ("exploration", "exhaustive enumeration of inclusion and link orders",
   "Every header first, all ordered pairs, every link rotation; each program is executed and its results compared with those of the header used alone, also before main."),
 "C17": ("fault_enumeration", "systematic enumeration of options, sizes and read segmentations of the real program under an interposed read",
   "Every option, every size in the boundary set and every short-read/EINTR pattern in the bounds."),
 "C18": ("fault_enumeration", "systematic injection of a failure at every open and read call, and enumeration of malformed argument vectors, on the real program",
   "Every failing call index in turn and every argument vector over the alphabet to the length bound."),
 "C19": ("exploration", "exhaustive families of operation histories executed on emulated big- and little-endian 32- and 64-bit machines",
   "The headers are compiled for MIPS 32/64 in both byte orders and the same exhaustive histories as in C14 are run in an emulator; every result must equal this machine's. Trusts the emulator, which a self test over integer operations and the little-endian machines bind to this one on every run; the standard library headers are the host's."),
 "C20": ("fault_enumeration", "exhaustive failure of each allocation of each operation of each history, on the real classes",
   "Each allocation in turn is made to fail; afterwards the object model is checked."),
 "C21": ("fault_enumeration", "systematic enumeration of the outcomes of every write call of the real program under trapped system calls",
   "All sequences of write outcomes over a five-letter alphabet to the depth, a failure at every write of long answers, unwritable outputs. A failure that only close() reports is not injected."),
 "C23": ("exploration", "exhaustive enumeration of buffer fills, call sizes and amounts of data over the real code, with every executed basic block and allocated byte counted",
   "Growth only: factors of 2.5 and a constant; n log n is not told from n. Amounts are bounded (1 MiB in quick runs)."),
 "C22": ("exploration", "exhaustive product of ambient process states, each executed in a fresh process over a fixed set of operation histories; exhaustive assignment of calls to threads",
   "All combinations of the listed ambient states; each must give the results of the start state. Only the locales installed here and the standard's own facets are used."),
}
ENABLED = open(os.path.join(V, "checks", "ENABLED")).read().split()
REASON = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    f = "checks/%s.py" % p.lower()
    if p in ENABLED:
        lv, t, n = C[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 %s --quick" % f, "thorough_cmd": "python3 %s --thorough" % f, "technique": t, "level": lv, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": REASON.get(p, "the check for this property is not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
