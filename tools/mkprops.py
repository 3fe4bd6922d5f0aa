import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["reiconv_iconv return value, errno, advanced pointers and output bytes"]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
LOOP=("conversion loop","lib/loop_unicode.h unicode_loop_convert")
RST=("flush/reset","lib/loop_unicode.h unicode_loop_reset")
p("C01","Table-driven charsets convert exactly per their published mapping tables",
 "For every encoding without shift states (single-byte, DBCS, EUC, Big5, GBK, GB18030, EBCDIC, Mac, ...), every byte sequence decodes to exactly the characters of the published mapping table and every other byte sequence is rejected; every Unicode character is encoded as exactly the table's byte sequence and every character outside the table is treated as unencodable. This holds for each character regardless of the characters converted before it or following it in the same buffer.",
 ["inputs"],"all byte sequences (as an adaptive prefix tree up to the longest character) and all code points 0..10FFFF, for each of the ~170 table-driven encodings, at the start of the text and after other characters",
 "the repository's table tests convert one character at a time from a fresh position, skip surrogates and planes above 2/3 for most sets, accept anything the snapshot data do not list for CP943, and never look at what follows or precedes a character",
 ["lib/converters/","lib/encodings.h.snippet","tests/data/"],[("per-charset mbtowc/wctomb and their compressed tables","lib/converters/*.h"),LOOP])
p("C02","Unicode forms accept and emit exactly the well-formed sequences",
 "UTF-8, UTF-16, UTF-32, UCS-2 and UCS-4 in all their byte-order variants decode every well-formed code unit sequence to its code point, reject every ill-formed one (overlong or truncated forms, surrogates and values above 10FFFF in the UTF forms, surrogates in UCS-2), and encode every representable code point to its unique well-formed sequence. Code points that a UTF form or UCS-2 cannot represent, surrogates in particular, are treated as unencodable rather than emitted; UCS-4 carries any value up to 7FFFFFFF.",
 ["inputs"],"all byte sequences up to four bytes as an adaptive prefix tree, all 16-bit units and surrogate pairs, all 32-bit values (thorough tier) and all code points as encoder input",
 "tests cover UTF-8 valid sequences and a table of BMP characters; the ill-formed space (2^32 sequences) is not touched",
 ["lib/converters/utf8.h","lib/converters/utf16.h","lib/converters/utf16be.h","lib/converters/utf16le.h","lib/converters/utf32.h","lib/converters/utf32be.h","lib/converters/utf32le.h","lib/converters/ucs2.h","lib/converters/ucs2be.h","lib/converters/ucs2le.h","lib/converters/ucs2internal.h","lib/converters/ucs2swapped.h","lib/converters/ucs4.h","lib/converters/ucs4be.h","lib/converters/ucs4le.h","lib/converters/ucs4internal.h","lib/converters/ucs4swapped.h"],
 [("range and continuation checks","lib/converters/utf*.h, ucs*.h"),LOOP])
p("C03","Stateful encodings are decoded per their specification in every shift state",
 "For ISO-2022-JP, -JP-1, -JP-2, -JP-3, -JP-MS, ISO-2022-KR, ISO-2022-CN, ISO-2022-CN-EXT, HZ and UTF-7, in every reachable shift/designation state every escape sequence, shift code, single shift, line end and character code has exactly the effect that the specification gives it: the right characters come out and the right state is active afterwards. Escape sequences and codes that the specification does not define in that state are rejected, and the state survives any number of intervening calls.",
 ["histories","inputs"],"all reachable decoder states (product of specification state and implementation state, explored to a fixpoint) x all next byte sequences up to the length of the longest token",
 "the stateful tests compare a handful of text snippets; states such as a designation surviving a line end, a single shift with another set active, or SO before any designation are never visited",
 ["lib/converters/iso2022_jp.h","lib/converters/iso2022_jp1.h","lib/converters/iso2022_jp2.h","lib/converters/iso2022_jp3.h","lib/converters/iso2022_jpms.h","lib/converters/iso2022_kr.h","lib/converters/iso2022_cn.h","lib/converters/iso2022_cnext.h","lib/converters/hz.h","lib/converters/utf7.h"],
 [("escape parsing and istate update","lib/converters/iso2022_*.h *_mbtowc, hz.h, utf7.h"),LOOP],[("istate","active and designated character sets of the input","lib/converters.h conv_struct")])
p("C04","Stateful encoders emit text that a conforming decoder reads back, in any state",
 "For ISO-2022-JP, -JP-1, -JP-2, -JP-3, -JP-MS, ISO-2022-KR, ISO-2022-CN, ISO-2022-CN-EXT, HZ and UTF-7, from every reachable encoder state every Unicode character that the encoding can represent is written as bytes which a specification-conforming decoder following along reads back as exactly that character, and every other character is treated as unencodable in every state. Line ends leave no designation the specification says has lapsed, and after the final flush the bytes written have returned the reader to the initial state, so complete outputs can be concatenated. (The control characters ESC, SO and SI, which cannot be told from shift codes, and C1 controls in ISO-2022-JP-2 are not covered.)",
 ["histories","inputs"],"all reachable encoder states (explored to a fixpoint) x all code points 0..10FFFF, followed by a flush",
 "tests convert a few fixed texts; encoder state x next character pairs (for example a two-plane character right after a line end) number tens of millions",
 ["lib/converters/iso2022_jp.h","lib/converters/iso2022_jp1.h","lib/converters/iso2022_jp2.h","lib/converters/iso2022_jp3.h","lib/converters/iso2022_jpms.h","lib/converters/iso2022_kr.h","lib/converters/iso2022_cn.h","lib/converters/iso2022_cnext.h","lib/converters/hz.h","lib/converters/utf7.h"],
 [("designation/shift emission and ostate update","lib/converters/iso2022_*.h *_wctomb/*_reset, hz.h, utf7.h"),RST],[("ostate","active and designated character sets of the output","lib/converters.h conv_struct")])
p("C05","The result does not depend on how the input is split across calls",
 "Converting a text in several calls, with the input cut at any byte positions (unconsumed bytes of an incomplete character being presented again together with the next piece, as usual with iconv), produces the same output bytes, the same count of irreversible conversions (over calls that succeed) and the same final success or error position as converting it in one call, where the position of an unencodable character may include shift sequences and byte order marks directly before it. Calls with empty input change nothing.",
 ["histories","inputs"],"all words of a per-encoding token alphabet up to a length bound x all cut position sets up to two cuts and byte-at-a-time feeding, plus every single character of every encoding x every cut",
 "every existing test passes each text in one piece",
 ["lib/loop_unicode.h","lib/iconv.c","lib/converters/"],[LOOP,("incomplete-input returns keep or advance istate consistently","lib/converters/*.h RET_TOOFEW paths")],[("istate, ibyteorder","decoder state carried between calls","lib/converters.h conv_struct")])
p("C06","A full output buffer loses, repeats and corrupts nothing",
 "When the output buffer is too small the call fails with E2BIG having consumed exactly the input whose output has been stored or is retained, and continuing with more room (any sequence of buffer sizes, including zero) yields the same total output and the same end position as one call with ample room, for conversion and for the final flush alike. A buffer of exactly the needed size always suffices.",
 ["histories","inputs"],"all words of per-encoding token alphabets up to a length bound x all output capacities from 0 to the full size, including capacity sequences growing one byte at a time",
 "existing tests always provide a large buffer",
 ["lib/loop_unicode.h","lib/converters/"],[("E2BIG handling restores istate",  "lib/loop_unicode.h"),("RET_TOOSMALL checks before state update","lib/converters/*.h *_wctomb/*_reset")],[("istate/ostate","must be unchanged for the character that did not fit","lib/converters.h conv_struct")])
p("C07","No access outside the caller's buffers; pointers and counts stay consistent",
 "No call reads a byte outside the given input range or writes a byte outside the given output range (nor touches other memory it does not own), for any input bytes, any lengths including zero, and any descriptor history. The input and output pointers advance by exactly the amounts by which the counts decrease, never beyond the ends, and the input is never modified.",
 ["inputs","histories"],"all input byte sequences of the adaptive prefix tree in all reachable states x output capacities 0..max, for all encodings as source and as target, on guarded and instrumented memory",
 "tests run without guard pages or sanitizers and with ample buffers",
 ["lib/loop_unicode.h","lib/iconv.c","lib/converters/"],[("length checks before every access","lib/converters/*.h"),("result range checks","lib/loop_unicode.h")])
p("C08","Malformed and truncated input is reported precisely",
 "Malformed input stops the conversion with EILSEQ, and input ending in the middle of a character stops it with EINVAL, with everything before it converted and delivered and the input pointer at the first byte of the offending character (after any shift sequences preceding it); presenting the same rest again reports the same error again. A prefix of a valid character is never reported as malformed, malformed input is never reported as merely incomplete once as many bytes are there as a character with its first byte can have (a shorter rest that can no longer be completed may be reported either way), and valid input is never reported as either.",
 ["inputs","histories"],"all byte sequences of the adaptive prefix tree in all reachable decoder states, after zero to two preceding valid characters, for all encodings",
 "the tests check validity of tables character by character and never look at the error position, nor at errors in the middle of a buffer",
 ["lib/loop_unicode.h","lib/converters/","lib/reiconv_defines.h"],[("RET_ILSEQ/RET_SHIFT_ILSEQ/RET_TOOFEW decoding","lib/loop_unicode.h"),("codes returned by decoders","lib/converters/*.h")])
p("C09","Reset returns a descriptor to its initial state, whatever happened before",
 "After any sequence of conversions, errors, full-buffer stops and flushes, resetting a descriptor (with or without an output buffer, and in either form of the call: no input pointer, or a pointer to a null pointer) makes it behave exactly like a newly opened one, except that a byte order learned from a byte order mark is kept. A flush with an output buffer delivers all buffered characters and the bytes that return the output to its initial shift state, a second flush delivers nothing, and a flush that fails for lack of room can be repeated.",
 ["histories"],"all operation sequences (convert any token with ample/limited room, flush with any room, plain reset) up to a depth bound, for every encoding as source and as target, compared with a fresh descriptor on all probe texts",
 "tests open a fresh descriptor per text and flush once at the end",
 ["lib/loop_unicode.h","lib/converters/"],[RST,("xxx_flushwc / xxx_reset","lib/converters/*.h")],[("istate, ostate","cleared by reset","lib/loop_unicode.h")])
p("C10","The discard flag drops exactly the inconvertible pieces and nothing else",
 "With the discard-illegal-sequences flag, conversion of any complete text succeeds: each malformed sequence is skipped (one code unit of the source form at a time: 4 bytes for 32-bit, 2 for 16-bit forms, otherwise 1 byte) and each unencodable character is dropped and counted, while every other character is converted exactly as without the flag. Malformed input is never reported as an error, truncated input is still reported as incomplete, and without the flag nothing is ever skipped silently.",
 ["inputs","histories"],"all words up to a length bound over tokens mixing valid, malformed, truncated and unencodable pieces, for every source encoding and representative targets",
 "one test covers a few strings with a single bad byte",
 ["lib/loop_unicode.h","lib/iconv.c"],[("discard_ilseq branches","lib/loop_unicode.h unicode_loop_convert/unicode_loop_reset")])
p("C11","Unencodable characters are substituted and counted, never silently altered",
 "Without the discard flag, a character that the target cannot represent is replaced by U+FFFD where the target can represent that and otherwise stops the conversion with EILSEQ at that character, every time the rest is presented again; Unicode tag characters are dropped without being counted. The return value is the exact number of characters so replaced in that call, and zero when everything was converted reversibly.",
 ["inputs"],"all code points 0..10FFFF (and, for 32-bit sources, values beyond) into every encoding, alone and in all mixes up to a length bound",
 "tests only convert characters that the target table contains, or check that others fail, but never look at counts or at U+FFFD substitution",
 ["lib/loop_unicode.h"],[("RET_ILUNI handling","lib/loop_unicode.h")])
p("C12","Converting to an encoding and back is lossless",
 "Any text that converts to an encoding without error and with a count of zero converts back to the same text, and any valid text of an encoding whose characters all have codes converts to Unicode and back to bytes that decode to the same text, up to the published one-way and composition mappings of that charset and up to dropped byte order marks. This holds for every pair of consecutive characters, not only for characters in isolation; the C99 and JAVA notations, where a literal escape sequence cannot be told from an escape, are only covered for text without backslashes, and the ISO-2022 forms for text without ESC, SO and SI (nor C1 controls in ISO-2022-JP-2).",
 ["inputs"],"all code points into every encoding and back; all valid characters of every encoding and back; and all ordered pairs of representative characters with every character",
 "tests compare isolated characters with table files, not the composition of both directions nor adjacent characters",
 ["lib/converters/"],[("wctomb and mbtowc of one encoding are inverse","lib/converters/*.h")])
p("C13","Converting between any two encodings equals going through Unicode",
 "For every source and target encoding, including source equal to target, a direct conversion gives the same bytes, the same error and the same error position as decoding the source to Unicode and encoding the result in the target. No pair takes a shortcut that skips validation or changes the text.",
 ["inputs","configurations"],"all ordered pairs of encodings x every valid character of the source (large repertoires: a boundary-complete subset for some pairs) and malformed and truncated tokens, alone and in pairs",
 "tests only ever convert between an encoding and UTF-8/UCS-4",
 ["lib/loop_unicode.h","lib/iconv.c","lib/all_encodings.h"],[("pivot through UCS-4","lib/loop_unicode.h"),("table of converters by index","lib/all_encodings.h, lib/encodings.h.snippet")])
p("C14","Byte order marks are honoured and produced as documented",
 "Decoding UTF-16, UTF-32, UCS-2 and UCS-4 without explicit byte order starts big-endian, drops every byte order mark wherever it appears, switches byte order at a reversed mark, and keeps the byte order across calls and resets of the same descriptor; the variants with explicit byte order never interpret marks. Encoding to UTF-16 and UTF-32 writes exactly one big-endian mark before the first character after opening or reset and none if there is no character, while the other forms write none.",
 ["histories","inputs"],"all sequences of units from {mark, reversed mark, characters, surrogates, invalid units} up to a length bound with resets and cuts anywhere, over all byte-order states, and every code unit in every byte-order state",
 "one test checks that a reset keeps the byte order for one text",
 ["lib/converters/utf16.h","lib/converters/utf32.h","lib/converters/ucs2.h","lib/converters/ucs4.h","lib/loop_unicode.h"],[("ibyteorder toggling","lib/converters/utf16.h, utf32.h, ucs2.h, ucs4.h"),("ostate = BOM written","lib/converters/utf16.h, utf32.h")])
p("C15","Encoding names resolve to the right encoding and nothing else resolves",
 "Every documented encoding name and alias is found in any letter case and with any placement of '-' and '_', and denotes the encoding it is documented to denote; every other string, of any length and content, is reported as unknown without side effects. Canonicalisation only upper-cases ASCII letters and removes '-' and '_', and returns the resulting length.",
 ["inputs"],"all documented names and aliases x case and separator variants; all strings within one edit (insert, delete, replace by any byte, swap) of a documented name; all strings up to a small length; over-long names",
 "tests use about two hundred canonical names; near misses, hash collisions and over-long names are not tried",
 ["lib/iconv.c","lib/generated/aliases.h","lib/encodings.h.snippet"],[("reiconv_name_canonicalize","lib/iconv.c"),("perfect hash","lib/generated/aliases.h aliases_lookup")],observe=["reiconv_lookup_from_name, reiconv_open_from_name, reiconv_name_canonicalize"])
p("C16","Code page numbers and encoding constants denote the documented encodings",
 "Every documented code page number and every public encoding constant opens the encoding it is documented for, and every other integer passed as a code page is reported as unknown without touching memory outside the library's tables. Looking up by name, by code page and by constant agree with each other.",
 ["inputs"],"all 2^32 code page integers and all public constants",
 "tests open encodings by name only",
 ["lib/codepage_to_ei.h","lib/encodings.h.snippet","lib/generated/indexes.h.shippet","lib/generated/indexes.hpp.shippet","lib/iconv.c"],[("codepage table","lib/codepage_to_ei.h"),("index enums","lib/generated/indexes.*")],observe=["reiconv_lookup_from_codepage, reiconv_open_from_codepage, ENCODING_* constants"])
p("C17","Opening validates its arguments and builds exactly the requested conversion",
 "Every way of opening a descriptor (by name, by code page, by an index obtained from a lookup, and the iconv-style call with target first, also under its <iconv.h> names) yields a conversion from the requested source to the requested target with the requested flags, or fails with EINVAL if either side is unknown, for all combinations of valid and invalid arguments. In the iconv-style call the suffix '//IGNORE', in any letter case and on either name, turns on discarding and no other suffix does (what follows //IGNORE, and whether other suffixes are ignored or refused, is not covered); the descriptor never depends on the lifetime or content of the argument strings after the call.",
 ["inputs","configurations"],"all pairs of encodings through every opening function, with and without flags, all suffix variants up to a length bound, all names with suffixes, all combinations of known and unknown arguments",
 "tests open a few pairs by name",
 ["lib/iconv.c"],[("reiconv_open, reiconv_open_from_name/codepage/index","lib/iconv.c")],observe=["returned descriptor behaviour, errno"])
p("C18","Whole-string functions agree with streaming and leave the descriptor clean",
 "The size reported for a text equals the number of bytes a complete streaming conversion including the final flush produces; the fixed-buffer function succeeds exactly when the buffer has at least that size, writing those bytes and leaving the rest of the buffer unchanged, and the allocating function returns exactly those bytes and their length. Malformed or truncated input makes all three fail with EILSEQ, and after any of these calls, successful or not, the descriptor converts the next text like a fresh one (a learned byte order aside).",
 ["inputs","histories"],"all token words up to a length bound and texts of all lengths around the internal block size, every buffer size from 0 to size+2, all sequences of the three calls up to a depth bound, for all encodings as source and as target, with and without the discard flag",
 "tests use the allocating function for successful conversions only",
 ["lib/iconv.c"],[("block-wise counting","lib/iconv.c reiconv_result_size"),("reiconv_convert_static_size, reiconv_convert","lib/iconv.c")],observe=["return values, errno, output buffer, follow-up conversions"])
p("C19","Memory allocation failure is reported cleanly at every allocation",
 "If any memory allocation fails during any call, the call reports the failure (ENOMEM, or an exception in C++) without crashing, without leaking memory or descriptors and without corrupting or losing buffers the caller owns, and the same call succeeds when repeated. In runs without failures every allocation is released exactly once.",
 ["fault_sequences","histories"],"for a set of API call sequences covering every function, every single allocation point and every pair of allocation points made to fail, and failing all allocations from each point on",
 "no test injects allocation failures",
 ["lib/iconv.c","lib/reiconv.cpp"],[("NULL checks, exception cleanup","lib/iconv.c reiconv_open_from_index, reiconv_convert; lib/reiconv.cpp convert")],observe=["malloc/realloc/free/operator new/delete interposition"])
p("C20","Descriptors are independent of each other under any interleaving",
 "Any number of descriptors, for the same or different encodings, can be used alternately or from several threads at once, each by one thread at a time, and each produces exactly what it would produce alone.",
 ["schedules","histories"],"all interleavings of the calls of two and three descriptors' scripts for all encodings, and all preemption-bounded interleavings of two threads inside the calls at every access to shared writable memory",
 "tests use one descriptor in one thread",
 ["lib/iconv.c","lib/loop_unicode.h","lib/converters.h","lib/converters/"],[("all conversion state lives in the descriptor","lib/converters.h conv_struct"),("tables are const","lib/converters/*.h")])
p("C21","The C++ interface mirrors the C interface and reports errors as documented",
 "For every source, target, flag and input, including inputs with NUL bytes and empty inputs, the C++ conversion function returns exactly the bytes of the C conversion, or throws std::system_error carrying the C error code when that fails; encodings are constructible from names, code pages and constants, denote the same encodings as in C, compare equal exactly when they do, and unknown ones throw std::invalid_argument. No failed or successful call leaks a descriptor or memory.",
 ["inputs","configurations"],"all encodings as source and as target x token words up to a length bound incl. malformed and truncated ones x both flags; all names, code pages and constants",
 "tests call the C++ function on a few strings that convert successfully",
 ["lib/reiconv.cpp","include/cppp/reiconv.hpp.in"],[("reiconv::convert, reiconv::Encoding","lib/reiconv.cpp")],observe=["returned std::string, thrown exceptions, allocation balance"])
p("C22","Characters made of several code points are composed and split consistently",
 "In the encodings where one code corresponds to two Unicode code points or where base and combining characters are composed (CP1255, CP1258, TCVN, Big5-HKSCS editions, EUC-JISX0213, Shift_JISX0213, ISO-2022-JP-3), decoding any text followed by a flush yields exactly the text obtained by applying the published compositions and pairs from left to right (a composed character is composed again with a following mark only where the charset's tables say so, as in CP1255), and encoding any text followed by a flush yields codes for exactly that text with combining pairs merged into their single code. No pending character is ever lost, duplicated or reordered, whatever follows it: another character, a malformed sequence, an unencodable character, a full buffer, or the end of the text.",
 ["inputs","histories"],"all reachable pending states x all next byte sequences (decoding) and x all code points (encoding), followed by flush, and all words over combining-relevant tokens up to a length bound",
 "tests decode each table entry alone with a flush; sequences of base, mark, base, error are not tried",
 ["lib/converters/cp1255.h","lib/converters/cp1258.h","lib/converters/tcvn.h","lib/converters/big5hkscs1999.h","lib/converters/big5hkscs2001.h","lib/converters/big5hkscs2004.h","lib/converters/big5hkscs2008.h","lib/converters/euc_jisx0213.h","lib/converters/shift_jisx0213.h","lib/converters/iso2022_jp3.h"],
 [("buffered character in istate/ostate, flushwc/reset","lib/converters/*.h"),RST])
p("C23","C99 and Java escape notations are parsed and produced exactly",
 "Decoding C99 and JAVA text turns each well-formed \\u / \\U escape (for JAVA: also surrogate pairs of escapes) into its character, leaves every other character and every backslash that starts no well-formed escape as it is, and never yields a surrogate; C99 rejects bytes from 0xA0 and escapes naming basic characters. Encoding writes directly representable characters unchanged and all others as lower-case escapes of exactly 4 or 8 (JAVA: 4 or 4+4) digits, and rejects code points that cannot be so written. (C99 escapes naming values above 10FFFF are not covered.)",
 ["inputs"],"all code points as encoder input; as decoder input all byte sequences over the escape-relevant alphabet (backslash, u, U, hex digits, near-hex characters, others) as an adaptive prefix tree, every byte in every digit position, and all \\uXXXX values",
 "tests have a few snippets with escapes",
 ["lib/converters/c99.h","lib/converters/java.h"],[("escape scanner","lib/converters/c99.h, java.h")])
p("C24","The locale's charset name is that of the locale in effect and can be opened",
 "The name reported for the current locale's character encoding is that of the locale in effect: what nl_langinfo(CODESET) says where the system has it, UTF-8 where there is nothing else, and otherwise the first of LC_ALL, LC_CTYPE, LANG and the current locale that is set and not empty decides (the encoding that the platform's table gives for it, else what follows the dot, else UTF-8); on Windows the active code page decides. Every name in the tables and every default, except those marked as not supported yet, is one the library can open and denotes that encoding, in C and in C++, and asking changes nothing. (Locale names with modifiers, such as @euro, are not covered.)",
 ["configurations"],"all settings of the four places over the locale names of the tables, their neighbours and all documented encoding names, on each kind of platform; all Windows code pages",
 "not exercised by any test, and not part of the build here",
 ["lib/locale_charset.c","lib/locale_charset.cpp","lib/localecharset/"],[("nl_langinfo, environment lookup and tables","lib/locale_charset.c, lib/localecharset/")],observe=["locale_charset(), reiconv::locale_charset()"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
