#!/usr/bin/env python3
"""Writes the rule and assumptions of every check into checks.json, and MANIFEST.json."""
import json
A_TAB = "The reference for charset tables and names is spec/ (the published tables as in the upstream data at the base commit, reviewed, plus the specifications of the algorithmic encodings written independently in src/model.hpp)."
A_STATE = "A descriptor's complete state is the memory it was allocated in (checked: it is allocated through malloc); for saving and restoring, all allocations of a descriptor are kept in one arena."
A_BUILD = "The library is compiled from /repo's working tree with gcc/clang on x86-64 Linux, as the CMake build does."
M = {
"C01": ("product state exploration against charset tables",
        "for every table-driven encoding, every byte string of an adaptive prefix tree (all continuations while the specification or the library wants more bytes) from every reachable product state of specification decoder and real descriptor, and every code point 0..10FFFF from every encoder state, with exact comparison of output, consumption and error, and periodic texts of 300 to 66,000 characters (counters wrap), one item at every distance up to 300 in a run of another, and the same between this encoding and UTF-8, UTF-16, Latin-1, ASCII, CP1252 and itself, and every pair of characters a power of two apart or sharing a byte (cache keys)",
        [A_TAB, A_STATE], "all encodings without shift states; texts after one arbitrary preceding character are covered through the state, longer words in C05/C06/C13"),
"C02": ("product state exploration against the definition of the Unicode forms",
        "every 16-bit unit and surrogate pair, every UTF-8 byte sequence as an adaptive prefix tree, 32-bit values on a boundary-complete grid (thorough: all 2^32), every code point as encoder input, from every byte-order and BOM state, and periodic texts of 300 to 66,000 characters (counters wrap), one item at every distance up to 300 in a run of another, and the same between this encoding and UTF-8, UTF-16, Latin-1, ASCII, CP1252 and itself, and every pair of characters a power of two apart or sharing a byte (cache keys)",
        [A_STATE], "UCS-4 values above 7FFFFFFF are not judged"),
"C03": ("explicit-state product exploration of specification automaton and implementation",
        "breadth-first to a fixpoint over pairs (specification state, complete memory of the real descriptor); from each pair every token of the adaptive prefix tree, comparing characters, consumption, errors, and that the next state is consistent, and periodic texts of 300 to 66,000 characters (counters wrap), one item at every distance up to 300 in a run of another, and the same between this encoding and UTF-8, UTF-16, Latin-1, ASCII, CP1252 and itself, and more than 2^31 bytes of shift sequences",
        [A_TAB, A_STATE], "fixpoint reached; equal memory is equal future"),
"C04": ("explicit-state exploration of the encoder against a following specification decoder",
        "breadth-first to a fixpoint over (encoder memory, specification decoder state of what was written, text still owed); from each state all code points, then a flush from each successor; calls and flushes with every insufficient room from every state, continued, and periodic texts of 300 to 66,000 characters (counters wrap), and the same texts from UTF-8 and UTF-16",
        [A_TAB, A_STATE], "quick visits all code points from the distinct encoder states, thorough from every product state"),
"C05": ("bounded exhaustive exploration of call histories (all cuts)",
        "all words of the per-encoding token alphabet up to the depth that fits the budget x all sets of up to two cuts and byte-by-byte feeding, and every single token from every state x every cut, compared with one call, and periodic texts of 300 to 66,000 characters (counters wrap) in pieces of several sizes, with and without empty calls (with and without room) in between, and runs of 1 to 70 items with another at every distance, also between the encoding and itself, Latin-1, UTF-8 and UTF-16",
        [A_STATE], "words of 2 to 4 tokens, depth by alphabet size"),
"C06": ("bounded exhaustive exploration of call histories (all buffer sizes)",
        "all token words up to the budgeted depth x all first capacities x growth by one byte, plus every token from every state x every capacity, and flushes with every room, compared with one call with ample room, and periodic texts of 300 to 66,000 characters (counters wrap) with small buffers, and runs of 1 to 70 items with another at every distance, also between the encoding and itself, Latin-1, UTF-8 and UTF-16",
        [A_STATE], "words of 1 to 3 tokens"),
"C07": ("bounded exhaustive exploration on instrumented memory",
        "all tokens of the prefix tree from all shift states, all code points and boundary 32-bit values after all representative histories, all token words with all capacities, all pairs of encodings, all names and lengths, buffers and inputs whose counts are 2^31 or 2^32 and more; library built with AddressSanitizer and bounds checks, buffers surrounded by poisoned memory, and runs of 1 to 70 items with another at every distance, also between the encoding and itself, Latin-1, UTF-8 and UTF-16",
        ["An access inside the library's own static tables at a wrong but valid position is not a memory error."], "AddressSanitizer decides what is an invalid access on each explored execution"),
"C08": ("product state exploration against the specification's error classification",
        "every byte string of the adaptive prefix tree from every reachable product state, after zero to two preceding characters, for all encodings; error kind, error position and delivered text compared, and the rest presented again, and periodic texts of 300 to 66,000 characters (counters wrap), one item at every distance up to 300 in a run of another, and the same between this encoding and UTF-8, UTF-16, Latin-1, ASCII, CP1252 and itself",
        [A_TAB, A_STATE], "where a specification leaves the classification open (undecided prefixes) either answer is accepted"),
"C09": ("bounded exhaustive exploration of operation histories, compared by state and by behaviour",
        "all histories of calls (tokens, short buffers, errors, flushes with every room) up to the depth bound for every encoding as source and target, then reset/flush in every form of the call (no pointer, pointer to a null pointer); the descriptor memory must be the initial one, or else behave like a fresh descriptor on all probe texts; with discarding also from each encoding to itself; calls of 10 and 41 items",
        [A_STATE], "depth 2 (quick) or 3 (thorough) over 10 to 30 inputs"),
"C10": ("bounded exhaustive exploration against a hand-driven reference",
        "all words over valid, malformed, truncated and unencodable tokens up to the depth bound, and all such tokens from all shift states; reference: the same descriptor kind without the flag, skipping code units by hand, and periodic texts of 300 to 66,000 characters (counters wrap), and runs of 1 to 70 items with another at every distance, also between the encoding and itself, Latin-1, UTF-8 and UTF-16",
        [A_STATE], "depth by alphabet size"),
"C11": ("state exploration of all encoders over all code points",
        "all code points (and boundary values beyond) into every encoding from every representative encoder state, plus words mixing encodable and unencodable characters; outputs and return counts compared with the documented substitution, the rest presented again after an error, and periodic texts of 300 to 66,000 characters (counters wrap), also from the 8-, 16- and 32-bit Unicode forms and in runs",
        [A_TAB, A_STATE], "repertoires from the published tables"),
"C12": ("exhaustive round trips through the implementation",
        "every code point and every ordered pair (representative, character) to every encoding and back; every valid code of every encoding to Unicode and back; words over representatives, with UCS-4 and with UTF-8 as the text form, runs and long periodic texts",
        [A_TAB], "one-way mappings from the published tables are exempt"),
"C13": ("exhaustive pair-of-encodings product, direct versus via Unicode",
        "all ordered pairs of encodings x representative, boundary, malformed and truncated inputs, alone and in words; then all characters of the source in texts of 256 and 20,000 characters, with and without discarding, and one token at many distances in a run of another; output, error and error position compared",
        [A_STATE], "every character of every source reaches every target"),
"C14": ("bounded exhaustive exploration of operation sequences",
        "all sequences of calls, resets, flushes and short-buffer calls over marks, reversed marks, characters and invalid units up to the depth bound, and every unit in every byte-order state, and texts with marks at every distance in runs into 19 other encodings, against the documented behaviour, and more than 2^32 bytes of marks",
        [A_STATE], "depth 3 to 5 (quick)"),
"C15": ("exhaustive enumeration of names",
        "all documented names x case/separator variants, all one-edit neighbours of all names, all strings up to 5 characters over the name alphabet, all byte strings up to 3, over-long names; each known name identified by the behaviour of the conversion it opens; every name after every other name and after its neighbours; affixes of up to three characters and of the words usual in names",
        [A_TAB], "strings longer than the bound that are not near a documented name are covered by the hash-slot argument only in part"),
"C16": ("exhaustive enumeration of all integers and constants",
        "reiconv_lookup_from_codepage on all 2^32 integers; every documented code page and every C and C++ constant opened as source and target and identified by behaviour on probes; pairs of code pages one after the other",
        [A_TAB], "complete for code pages and constants"),
"C17": ("exhaustive enumeration of opening arguments",
        "all ordered pairs of encodings through the four opening functions and iconv_open of <iconv.h> with and without flags, identified by behaviour; all suffix variants up to the length bound; all combinations of known and unknown arguments; argument strings overwritten after the call and later ones put in their place",
        [A_TAB, A_STATE], "suffix alphabet bounded"),
"C18": ("bounded exhaustive exploration of call sequences against streaming",
        "all token words up to the depth bound and texts of every length around the internal block size and other powers of two, a result of more than 2^32 bytes, x every buffer size x all sequences of the whole-string functions up to the depth bound, from every state such calls may leave, and an input of more than 2^32 bytes, and runs of 1 to 70 items with another at every distance, also between the encoding and itself, Latin-1, UTF-8 and UTF-16",
        [A_STATE], "streaming conversion of the same library is the reference; it is decided by C01-C06"),
"C19": ("fault enumeration: every allocation point fails",
        "all API operation sequences up to depth 4 for 12 configurations x every single allocation failing, every pair, and every tail; allocator interposed, blocks tracked, reallocations always move",
        ["Allocation goes through malloc/calloc/realloc/free or operator new/delete."], "every fault point of every sequence within the bound"),
"C20": ("stateless exploration of schedules under a controlled scheduler, with partial-order reduction",
        "A: all interleavings of the calls of two descriptors for all pairs of encodings and of three of the same encoding; B: library compiled with access instrumentation, every operation executed and all writes to shared memory recorded (none: all interleavings equivalent), operations touching shared written memory explored pairwise under all schedules with up to 2 (thorough 3) preemptions at such accesses; C: up to 5,000 descriptors open at once, opened and closed in several orders, and 70,000 one after the other; D: a descriptor handed between two threads, all assignments of its calls to the threads; conversions between charsets sharing source or target interleaved in all orders, judged by what each gives in a process of its own; with little room and with texts of 200 bytes as well",
        ["Sequentially consistent interleaving at the granularity of the compiled accesses; locks, once-initialisation and atomics are modelled.", "Static state inside libc is not tracked."], "the scheduler proves itself on known racy and known safe examples in every run"),
"C21": ("bounded exhaustive exploration, C++ against C",
        "all encodings as source and target x token words up to the depth bound incl. malformed, truncated, empty and NUL texts x flags through both interfaces; all names, code pages and constants; allocation balance after every call, and an input of more than 2^32 bytes, and runs of 1 to 70 items with another at every distance",
        [A_TAB], "C interface is the reference"),
"C22": ("product state exploration against composition tables",
        "full product exploration of the decoders and encoders of the composing encodings, and all words over combining-relevant tokens up to the depth bound in one call, one call per token, and with every output capacity, and texts from and to UTF-8, UTF-16, Latin-1, ASCII and CP1252, and every pair of characters a power of two apart or sharing a byte (cache keys)",
        [A_TAB, A_STATE], "fixpoint for single tokens, depth 3 to 4 for words"),
"C23": ("product state exploration against the escape grammar",
        "all byte strings of the escape-relevant prefix tree, every byte in every digit position, all \\uXXXX values and pairs of surrogate escapes on a boundary grid, all code points as encoder input, and periodic texts of 300 to 66,000 characters (counters wrap), one item at every distance up to 300 in a run of another, and the same between this encoding and UTF-8, UTF-16, Latin-1, ASCII, CP1252 and itself",
        [A_STATE], "values above 10FFFF in C99 not judged"),
"C24": ("exhaustive enumeration of environments and platforms",
        "lib/locale_charset.c compiled for nine kinds of platform; about 1,500 locale names in each of the four places that decide x all settings of the places before and behind it; all codesets from nl_langinfo; all Windows code pages up to 70,000 through three entry points",
        [A_TAB, "The build here leaves lib/locale_charset.c out because the header cppp/cppp-platform.h is missing; an empty stand-in is used and the platform chosen by -D options, a stand-in for <Windows.h> declares GetACP and GetConsoleOutputCP."], "names with modifiers (@euro) are not covered"),
}
d = json.load(open('/verif/checks.json'))
checks = []
for p in sorted(M):
    tech, rule, asm, note = M[p]; d[p]["rule"] = rule; d[p]["assumptions"] = asm + [A_BUILD]
    checks.append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
        "technique": "model checking: " + tech, "level": d[p]["level"],
        "level_note": "Real code explored exhaustively within the stated bounds: " + rule + ". Note: " + note + "."})
d = {k: d[k] for k in sorted(d)}
json.dump(d, open('/verif/checks.json', 'w'), indent=1); open('/verif/checks.json', 'a').write("\n")
m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": []}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write("\n")
