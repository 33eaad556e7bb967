PATHS = "path-sensitive abstract interpretation (disjunctive dataflow) of canonical LLVM IR with per-path facts about string contents"
SOUND = ("Decides the rule on every path of the analysed function (loops by fixpoint), for the built-in and the simdutf configuration; "
         "an idiom the analysis cannot classify is reported as UNDECIDED, not as a violation. Trusts clang's front end, LLVM's inliner/SROA, "
         "the contracts of std::string/string_view, and that the called API predicates satisfy their own properties.")

prop("C01", "Over-long inputs are rejected first, and only over-long ones",
     "to_ascii and to_unicode reject every input longer than 16384 bytes (to_ascii fails with an empty result, to_unicode with an output parameter returns false) before any conversion, mapping, or allocation proportional to the input is done. No input of at most 16384 bytes is rejected because of its length.",
     ["inputs"], "all inputs of any length and content, both configurations (built-in and simdutf transcoding)",
     "Tests use a handful of lengths; whether some path reaches work before the limit, or an off-by-one limit, needs a statement about all paths and lengths.",
     ["src/to_ascii.cpp", "src/to_unicode.cpp", "include/ada/idna/mapping.h"],
     [("length gate", "to_ascii(std::string_view, std::string&), to_unicode(std::string_view, std::string&)")],
     ["returned bool", "result string"], tech=PATHS + "; rule: length check dominates work", note=SOUND)

prop("C02", "A failed conversion leaves nothing in the result",
     "Whenever to_ascii or to_unicode with an output parameter returns false, the output string is empty, whatever it held before and however far processing had got. The string-returning forms return exactly the output of the output-parameter form on success, and on failure an empty string (to_ascii) or the unchanged input (to_unicode).",
     ["inputs"], "all inputs and all initial contents of the result string",
     "There are more than ten failure exits, several deep inside the label loop after partial output; tests only sample a few of them.",
     ["src/to_ascii.cpp", "src/to_unicode.cpp"],
     [("clear on every failure exit", "to_ascii(std::string_view, std::string&)"), ("string forms", "to_ascii(std::string_view), to_unicode(std::string_view)")],
     ["result string after a false return"], tech=PATHS + "; rule: result empty at every failure exit", note=SOUND)

prop("C03", "to_ascii accepts an xn-- label only after full re-validation",
     "If to_ascii succeeds on an input that is not pure ASCII, every label of the mapped, normalised input that starts with \"xn--\" decodes as punycode to a label that contains a non-ASCII code point, is left unchanged by mapping and by NFC, and satisfies the label validity rules. The label appears in the result unchanged.",
     ["inputs"], "all inputs, every label position and every combination of labels",
     "Tests sample some bad xn-- labels; a dropped or reordered gate shows only for decoded labels failing exactly that gate.",
     ["src/to_ascii.cpp", "src/punycode.cpp", "src/validity.cpp"],
     [("ACE branch of the label loop", "to_ascii(std::string_view, std::string&)")],
     ["returned bool", "result string"], tech=PATHS + "; rule: must-pass-through set of validation gates per copied label", note=SOUND)

prop("C04", "to_unicode shows a decoded label only after full re-validation",
     "Every decoded label in to_unicode's result comes from an all-ASCII input label that starts with \"xn--\" and whose remainder is valid punycode for a label that contains a non-ASCII code point, is left unchanged by mapping and by NFC, and satisfies the label validity rules. Labels failing any of this are never shown decoded.",
     ["inputs"], "all inputs within the length limit, every label position and combination",
     "Displaying an unvalidated decoding enables spoofing for inputs nobody listed in a test; each gate matters only for labels failing just that gate.",
     ["src/to_unicode.cpp", "src/punycode.cpp", "src/validity.cpp"],
     [("decode branch of the label loop", "to_unicode(std::string_view, std::string&)")],
     ["result string"], tech=PATHS + "; rule: must-pass-through set of validation gates per decoded label", note=SOUND)

prop("C05", "to_ascii encodes only mapped, normalised, valid non-ASCII labels",
     "Every label to_ascii punycode-encodes is a label of the completely and strictly decoded input after mapping and NFC, contains a non-ASCII code point, does not itself start with \"xn--\", and satisfies the label validity rules; it is written as \"xn--\" directly followed by its encoding. An encoding failure, or malformed UTF-8, makes the whole conversion fail.",
     ["inputs"], "all inputs, every label position and combination",
     "Tests compare fixed vectors; a skipped mapping, normalisation or validity step is invisible for the vast majority of labels.",
     ["src/to_ascii.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/validity.cpp", "src/punycode.cpp"],
     [("U-label branch of the label loop", "to_ascii(std::string_view, std::string&)")],
     ["returned bool", "result string"], tech=PATHS + "; rule: must-pass-through gates and content provenance per encoded label", note=SOUND)

prop("C07", "Pure ASCII domains are lower-cased and nothing else",
     "For every pure-ASCII input within the length limit, to_ascii succeeds with exactly the input with A-Z lower-cased, without any validity or punycode check (the WHATWG carve-out). No input containing a non-ASCII byte takes this shortcut.",
     ["inputs"], "all ASCII inputs within the limit, all non-ASCII inputs",
     "The shortcut must hold for every byte string, including malformed xn-- labels and empty labels; tests list a few.",
     ["src/to_ascii.cpp", "src/mapping.cpp"],
     [("ASCII fast path", "to_ascii(std::string_view, std::string&)")],
     ["returned bool", "result string"], tech=PATHS + "; rule: ASCII-ness partition of all outcomes", note=SOUND)

prop("C08", "to_unicode never fails and keeps every label and separator",
     "For every input of at most 16384 bytes to_unicode succeeds, and its result has, for each dot-separated label of the input in order, either the label verbatim or its complete decoded UTF-8 form, with a '.' exactly where the input has one. No label is dropped, duplicated, truncated or joined.",
     ["inputs"], "all inputs within the limit, including empty, leading and trailing labels",
     "Relations between scan positions over all label sequences; tests list fixed domains.",
     ["src/to_unicode.cpp"],
     [("label loop", "to_unicode(std::string_view, std::string&)")],
     ["returned bool", "result string"], tech=PATHS + "; rule: relational step invariant of the label scan", note=SOUND)

prop("C33", "to_ascii keeps the label structure of the mapped domain",
     "When to_ascii succeeds on a non-ASCII input, its result has exactly one piece for each non-empty label of the mapped, normalised input, in order, with a '.' exactly where that text has one. No label is dropped, duplicated, truncated or joined, and empty labels keep their dots.",
     ["inputs"], "all inputs, including empty, leading and trailing labels",
     "Relations between scan positions over all label sequences; tests list fixed domains.",
     ["src/to_ascii.cpp"],
     [("label loop", "to_ascii(std::string_view, std::string&)")],
     ["result string"], tech=PATHS + "; rule: relational step invariant of the label scan", note=SOUND)

BOXES = "abstract interpretation of LLVM IR over an exact partition of the input (sets per unit, one inductive step per loop)"
BOXNOTE = ("Every value is an exact separable function of the input units on each partition class, and header relations are checked to be inductive, so the "
           "verdict covers inputs of every length, for little- and big-endian builds. Trusts clang's front end and LLVM's inliner/SROA; "
           "values that leave the domain are reported as UNDECIDED.")

prop("C14", "UTF-8 decoding is strict and exact",
     "utf8_to_utf32 writes exactly the code points of a well-formed UTF-8 input and returns their number. It returns 0 for an input with any ill-formed part (truncated, overlong, surrogate, above U+10FFFF, stray or missing continuation byte), accepts nothing else, and reads no byte outside the given length. utf32_length_from_utf8 is the number of bytes that are not continuation bytes, i.e. exactly the number of code points of a well-formed input.",
     ["inputs"], "all byte strings of all lengths",
     "The block fast path, the per-length branches and the bounds interact at every alignment and length; tests sample a few strings.",
     ["src/unicode_transcoding.cpp"],
     [("UTF-8 decoder", "utf8_to_utf32"), ("length", "utf32_length_from_utf8")],
     ["returned count", "output buffer", "reads"], tech=BOXES, note=BOXNOTE)

prop("C15", "UTF-32 encoding is strict and exact",
     "utf32_to_utf8 writes exactly the UTF-8 encoding of its input and returns the number of bytes written, for every input made of Unicode scalar values. It returns 0 when the input contains a surrogate or a value above 0x10FFFF. utf8_length_from_utf32 is exactly the number of bytes that encoding takes.",
     ["inputs"], "all sequences of 32-bit units of all lengths",
     "The two-unit fast path and the range branches meet at boundaries that tests sample; buffer sizes in the library rely on the length function.",
     ["src/unicode_transcoding.cpp"],
     [("UTF-8 encoder", "utf32_to_utf8"), ("length", "utf8_length_from_utf32")],
     ["returned count", "output buffer"], tech=BOXES, note=BOXNOTE)

prop("C27", "Forbidden domain code points are recognised exactly",
     "contains_forbidden_domain_code_point(s) is true if and only if s contains a WHATWG forbidden domain code point (C0 controls, space, # / : < > ? @ [ \\ ] ^ | %, U+007F) or a byte above 0x7F, at whatever position.",
     ["inputs"], "all byte strings of all lengths",
     "A wrong table entry or a skipped position shows only for one byte value or length.",
     ["src/to_ascii.cpp"],
     [("forbidden scan and table", "contains_forbidden_domain_code_point")],
     ["returned bool"], tech=BOXES, note=BOXNOTE)

prop("C37", "ASCII detection and ASCII lower-casing are exact for every length",
     "is_ascii is true exactly when every byte (every 32-bit unit in the UTF-32 form) is below 0x80. ascii_map applied to an ASCII buffer of any length lower-cases exactly the letters A-Z, leaves every other byte alone and touches nothing outside the buffer.",
     ["inputs"], "all buffers of all lengths and alignments",
     "ascii_map works on eight bytes at a time with a partial tail; a carry between lanes or a wrong tail shows only for particular neighbours and lengths.",
     ["src/to_ascii.cpp", "src/mapping.cpp"],
     [("scans", "is_ascii(std::string_view), is_ascii(std::u32string_view)"), ("word-wise lower-casing", "ascii_map")],
     ["returned bool", "buffer contents"], tech=BOXES, note=BOXNOTE)

PROTO = "path enumeration of the initialisation routine's IR with a typestate over its atomic state, plus a guard dataflow over all table readers"
PROTONOTE = ("Every path of the routine is followed (loops without events summarised, polling loops to their second round); the guard dataflow covers every "
             "function of the library. Little- and big-endian builds. Trusts clang's front end, the C++ memory model, and the listed callees.")

prop("C09", "Tables are published once, completely and race-free",
     "Whichever threads first call into the library, and however they interleave, at most one of them initialises the shared tables, and no call uses a table before it has observed, with acquire/release synchronisation, that all tables are in place. Tables become visible only after their decompressed size and checksum were verified, and are never changed afterwards.",
     ["schedules", "inputs"], "all interleavings of any number of threads making first calls",
     "The bad interleavings last nanoseconds once per process; a test process performs the initialisation once, usually from one thread.",
     ["src/table_store.hpp", "src/mapping.cpp", "src/normalization.cpp", "src/validity.cpp", "src/identifier.cpp"],
     [("one-time initialisation", "ensure_tables, tables_are_ready"), ("guarded readers", "map, is_already_nfc, normalize, is_label_valid, valid_name_code_point")],
     ["returned bool", "table pointers"], state=[("tables_init_state", "0 not started, 1 in progress, 2 ready, 3 failed", "src/table_store.hpp")],
     tech=PROTO + "; rule: work only by the race winner, publish complete and verified, acquire before use", note=PROTONOTE)

prop("C10", "A failed initialisation is permanent, clean and reported",
     "If the tables cannot be allocated or do not verify, the failure is recorded for all threads, the memory is released, and every call that needs the tables reports failure (false) from then on; a thread waiting for another one neither waits forever nor gives up while an ordinary initialisation is still in progress. The shipped compressed tables do decompress to exactly the declared size and checksum.",
     ["crash_points", "schedules"], "every allocation or verification failure at first use, all waiting threads",
     "Running out of memory at exactly the one table allocation, or a waiter racing with it, does not happen in tests.",
     ["src/table_store.hpp", "src/table_blob.inc", "src/mapping.cpp", "src/normalization.cpp", "src/validity.cpp", "src/identifier.cpp"],
     [("failure exits", "ensure_tables"), ("callers", "map, is_already_nfc, normalize, is_label_valid, valid_name_code_point")],
     ["returned bool"], tech=PROTO + "; rule: every winner path ends ready or failed, failures propagate as false", note=PROTONOTE)

prop("C12", "Calls share no mutable state and do not depend on the environment",
     "Apart from the one-time table initialisation, no call writes any variable that outlives it other than the caller's output object. Results therefore depend only on the arguments (not on earlier calls, other threads, locale or environment), and concurrent calls on distinct objects do not interfere.",
     ["histories", "schedules"], "all sequences and interleavings of calls",
     "Hidden caches and scratch buffers give right answers in single-threaded tests with fresh inputs.",
     ["src/to_ascii.cpp", "src/to_unicode.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/validity.cpp", "src/punycode.cpp", "src/identifier.cpp", "src/unicode_transcoding.cpp", "src/table_store.hpp"],
     [("whole library", "every function")],
     ["results of repeated and concurrent calls"], tech="effect analysis: pointer-root analysis of every store, atomic operation and external call in the library", 
     note="Every instruction of every library function (after inlining of the standard library) in three configurations. Start-up code of constant objects is excluded. Trusts that std::string operations and operator new/delete touch only their objects.")

prop("C13", "Tables mean the same on big-endian hosts",
     "On a big-endian host every multi-byte table entry is converted exactly once, completely and with its own width, after the checksum was verified on the stored bytes; single-byte tables, and all tables on little-endian hosts, stay as they are. Every lookup reads entries with the width they were stored with.",
     ["inputs"], "all table entries, both byte orders",
     "Tests run on little-endian machines only.",
     ["src/table_store.hpp", "src/table_blob.inc"],
     [("byte order conversion", "convert_table_blob_to_host_endian, bswap_inplace"), ("table layout", "table_blob constants")],
     ["table contents"], tech="loop summarisation and byte-permutation analysis of the big-endian build's IR against the table layout", note=PROTONOTE)

LANG = "exact summarisation of the IR of is_label_valid as finite automata over sets of code points (loops cut at their headers, one automaton per outcome), compared with automata of the rule"
LANGNOTE = ("The automata cover labels of every length up to 2^30 and every code point value; table lookups are evaluated on the shipped table data. Trusts clang's front end and LLVM's inliner/SROA "
            "and that the tables were initialised (C09, C10); values that leave the domain are reported as UNDECIDED. ")

prop("C19", "Labels with right-to-left characters satisfy the Bidi rule",
     "is_label_valid accepts a label that contains a character of Bidi class R, AL or AN only if the label satisfies all six conditions of RFC 5893 section 2, and never refuses a label because of the Bidi rule that satisfies it or has no such character. The Bidi classes are those of the Unicode Character Database.",
     ["inputs"], "all label strings of all lengths, every code point",
     "The conditions interact (first character, last character before trailing NSM, EN versus AN order) over 23 classes and any length; tests list some labels.",
     ["src/validity.cpp", "src/table_blob.inc"],
     [("Bidi rule", "is_label_valid, is_rtl_label, find_last_not_of_nsm"), ("Bidi classes", "find_direction, dir_start, dir_final, dir_value")],
     ["returned bool"], tech=LANG + "; rule: RFC 5893", note=LANGNOTE + "Known finding: the table is that of Unicode 13.")

prop("C20", "Zero-width joiners are accepted only in a valid context",
     "is_label_valid accepts a label with U+200C or U+200D only if each of them satisfies the ContextJ rule of RFC 5892: a virama (combining class 9) directly before it, or, for U+200C only, joining letters (L or D before, R or D after) around it. It refuses no label in which every joiner satisfies the rule, at whatever position and however many there are.",
     ["inputs"], "all label strings of all lengths, every code point",
     "Joiners at the ends, next to each other or after other joiners, and single missing table entries, show only for particular labels.",
     ["src/validity.cpp"],
     [("ContextJ scan", "is_label_valid"), ("viramas and joining letters", "arrays virama, L, R, D in is_label_valid")],
     ["returned bool"], tech=LANG + "; rule: RFC 5892 A.1 and A.2", note=LANGNOTE + "Known findings: joining letters are accepted at any distance, and letters added after about Unicode 6 are missing; the check decides the range between these and the exact rule.")

prop("C21", "No label starts with a combining mark",
     "is_label_valid refuses every non-empty label whose first code point has general category Mn, Mc or Me, and refuses no label because of its first code point otherwise (Bidi and joiner rules aside).",
     ["inputs"], "all label strings of all lengths, every first code point",
     "The range search can be off by one at either end of any of 290 ranges; tests try a few marks.",
     ["src/validity.cpp", "src/table_blob.inc"],
     [("leading mark", "is_label_valid"), ("ranges", "combining_ranges")],
     ["returned bool"], tech=LANG + "; rule: first code point not a mark", note=LANGNOTE + "Known finding: the table is that of Unicode 13.")

prop("C38", "Label validity is exactly the three rules, and reads stay inside the label",
     "is_label_valid returns true for the empty label and otherwise exactly for the labels that do not start with a combining mark, have every joiner in a valid context and satisfy the Bidi rule. For every label it terminates and reads only code points of the label and entries inside the tables.",
     ["inputs"], "all label strings of all lengths, every code point value including surrogates and values above U+10FFFF",
     "An early return, a skipped position, or a read one past either end, needs a particular combination of code points and length.",
     ["src/validity.cpp"],
     [("validity", "is_label_valid")],
     ["returned bool", "reads"], tech=LANG + "; rule: conjunction of the rules, no read outside", note=LANGNOTE)

VEC = "exact transfer functions of loop iterations: abstract interpretation of the IR with linear forms over symbolic positions and one abstract value per input code point, loops cut at their headers; compared with the Unicode Character Database"
VECNOTE = ("Every 32-bit unit value and every length up to 2^30; table lookups are evaluated on the shipped table data. Trusts clang's front end and LLVM's inliner/SROA, the contracts of std::u32string, "
           "and that the tables were initialised (C09, C10). Loop shapes and values outside the domain are reported as UNDECIDED, not as violations. ")

prop("C22", "Mapping is exactly the UTS #46 mapping of every code point",
     "map() returns false exactly when the input contains a code point that UTS #46 (Unicode 17, non-transitional, STD3 rules off) disallows or a value that is no Unicode scalar value. Otherwise the result is, in order and with nothing else, for every input code point: itself if valid, nothing if ignored, its full mapping if mapped.",
     ["inputs"], "all strings, every code point value including surrogates and values above U+10FFFF",
     "More than 6000 code points are mapped and 10^5 disallowed, through a two-stage compressed table; the conformance file samples them, and combines few of them in one string.",
     ["src/mapping.cpp", "src/table_store.hpp", "src/table_blob.inc"],
     [("mapping", "map"), ("lookup", "find_range_index / stage tables, utf8_mappings")],
     ["returned bool", "out string"], tech=VEC + "; rule: UTS #46 mapping table", note=VECNOTE)

prop("C25", "Decomposition is the full canonical decomposition of every code point",
     "Before recomposition, normalization replaces every code point of the input, in order, by exactly its full canonical decomposition: Hangul syllables by the Hangul rule, others by the Unicode table, compatibility decompositions not at all, and leaves the others as they are. A string with any such code point is decomposed and its marks are sorted afterwards; one without is not changed.",
     ["inputs"], "all strings, every code point value",
     "13000 characters decompose through packed table entries with flags; a wrong shift or bound shows for some of them only.",
     ["src/normalization.cpp", "src/table_store.hpp", "src/table_blob.inc"],
     [("decomposition", "decompose, decompose_nfc, compute_decomposition_length")],
     ["normalized string"], tech=VEC + "; rule: canonical decomposition", note=VECNOTE + "Known finding: the table is that of Unicode 15.")

prop("C26", "Name code points are exactly the Unicode identifier characters",
     "valid_name_code_point(c, true) is true exactly if c is $, _ or has ID_Start; valid_name_code_point(c, false) exactly if c is $ or has ID_Continue (Unicode 17). It is false for surrogates and values above U+10FFFF.",
     ["inputs"], "all 2^32 values, both positions",
     "A binary search over 2200 ranges with inclusive ends can be wrong at single end points.",
     ["src/identifier.cpp", "src/table_store.hpp", "src/table_blob.inc"],
     [("classification", "valid_name_code_point"), ("ranges", "id_start, id_continue")],
     ["returned bool"], tech=VEC + "; rule: ID_Start, ID_Continue", note=VECNOTE)

prop("C28", "The test for normalized text agrees with normalization",
     "is_already_nfc returns true only for strings that normalize() leaves unchanged, and false only for strings it changes: it sees every code point with a canonical decomposition, every mark behind a mark of higher class, and every unblocked pair of code points (including Hangul jamo) that composes, wherever they stand.",
     ["inputs"], "all strings of all lengths",
     "The shortcut and normalization are separate code over the same tables; they can disagree on one pair of characters separated by any number of marks.",
     ["src/normalization.cpp"],
     [("quick check", "is_already_nfc, would_compose"), ("tables", "decomposition_index, composition_data, canonical_combining_class_index")],
     ["returned bool"], tech=VEC + "; rule: agrees with canonical decomposition, order and composition", note=VECNOTE + "The reference for characters newer than Unicode 15 is the library's own table (see C25, C35, C36).")

prop("C34", "Output buffers have exactly the size of what is written",
     "Where the library first counts and then writes (mapping, decomposition), the count and the writes agree for every code point, so that no element is written outside the buffer, none is left uninitialised, and the result has exactly the length of what was produced.",
     ["inputs"], "all strings, every code point value",
     "The counting and the writing pass decode the table separately; they can differ for a few code points, by one element, at the end of a buffer.",
     ["src/mapping.cpp", "src/normalization.cpp"],
     [("mapping", "map"), ("decomposition", "compute_decomposition_length, decompose, decompose_nfc")],
     ["length of results", "memory accesses"], tech=VEC + "; rule: elements counted = elements written, per code point and from the proper end", note=VECNOTE)

prop("C35", "Combining marks are put into canonical order",
     "In the normalized result every run of marks is sorted by canonical combining class, marks of equal class keep their order, and no mark moves across a character of class 0. The classes are those of the Unicode Character Database for every code point.",
     ["inputs"], "all strings of all lengths, every code point",
     "Order matters only for particular pairs of the 55 classes, runs can have any length, and stability is visible only with equal classes.",
     ["src/normalization.cpp", "src/table_store.hpp", "src/table_blob.inc"],
     [("ordering", "sort_marks"), ("classes", "get_ccc, canonical_combining_class_index")],
     ["normalized string"], tech=VEC + "; rule: stable insertion by combining class", note=VECNOTE + "Known finding: the table is that of Unicode 15.")

prop("C36", "Composition forms exactly the unblocked primary composites",
     "Recomposition replaces a starter and a following character by their primary composite exactly if Unicode has one for the pair and no kept character in between has class 0 or a class at least as high; Hangul L V and L V T become syllables. Everything else is kept in order, and the result ends where the last kept character was written.",
     ["inputs"], "all decomposed strings of all lengths",
     "940 pairs times blocking by any of 55 classes times distance; the conformance data has a few of each.",
     ["src/normalization.cpp", "src/table_store.hpp", "src/table_blob.inc"],
     [("composition", "compose"), ("tables", "composition_index, composition_block, composition_data")],
     ["normalized string"], tech=VEC + "; rule: canonical composition algorithm over starter, next unit and last class", note=VECNOTE + "Known finding: the table is that of Unicode 15. The next unit enters only through comparisons with table entries, its class and copies (checked), so one unit per interval stands for all.")

SIM = "relational dataflow analysis of the IR against a transition system of the RFC: abstract values are integer polynomials with intervals and inequalities, loops are cut at their heads, a relation between code values and reference state is inferred and checked to be inductive on every path between loop heads"
SIMNOTE = ("All inputs shorter than 2^30 units, all loop iterations. Trusts clang's front end and LLVM's inliner/SROA, the contracts of std::string / std::u32string / string_view, and a few range facts of the "
           "reference procedures themselves (an/puny.py). No solver is involved: inequalities are decided by intervals, corner evaluation and pairs of path facts. Unknown loop structures are reported as UNDECIDED. ")

prop("C16", "Punycode decoding is exactly the decoding procedure of RFC 3492",
     "punycode_to_utf32(s, out) with an empty out succeeds exactly if RFC 3492, section 6.2 (lower-case digits, maxint 2^31-1) decodes s without error and the result does not start with xn--, and out is then exactly the decoded sequence. Signed arithmetic never overflows and nothing outside s or out is accessed.",
     ["inputs"], "all byte strings shorter than 2^30",
     "Bias adaptation, insertion positions and the overflow guards interact over the whole history of the string; a wrong guard or constant shows for a few delta values only.",
     ["src/punycode.cpp"],
     [("decoding", "punycode_to_utf32"), ("bias adaptation", "adapt"), ("digits", "char_to_digit_value")],
     ["returned bool", "out string"], tech=SIM + "; rule: RFC 3492 section 6.2", note=SIMNOTE)

prop("C17", "verify_punycode accepts exactly what decoding accepts",
     "verify_punycode(s) is true exactly if decoding s as in RFC 3492, section 6.2 (lower-case digits, maxint 2^31-1) succeeds and the decoded sequence does not start with xn--; it needs no more than the first four elements for that and never accesses memory outside s and its own array.",
     ["inputs"], "all byte strings shorter than 2^30",
     "It is a second copy of the decoder that keeps only four output elements; the two can differ for one insertion order or one overflow bound.",
     ["src/punycode.cpp"],
     [("verification", "verify_punycode"), ("bias adaptation", "adapt"), ("digits", "char_to_digit_value")],
     ["returned bool"], tech=SIM + "; rule: RFC 3492 section 6.2 and the first four elements", note=SIMNOTE)

prop("C18", "Punycode encoding is exactly the encoding procedure of RFC 3492",
     "utf32_to_punycode(s, out) returns false exactly if s contains a surrogate or a value above U+10FFFF or if delta would exceed 2^31-1; otherwise it appends to out exactly the lower-case encoding of RFC 3492, section 6.3. Signed arithmetic never overflows.",
     ["inputs"], "all strings of 32-bit units shorter than 2^30",
     "The length of each delta depends on all smaller code points before it; overflow, the first-time flag and the count of handled units matter only for particular combinations.",
     ["src/punycode.cpp"],
     [("encoding", "utf32_to_punycode"), ("bias adaptation", "adapt"), ("digits", "digit_to_char")],
     ["returned bool", "appended string"], tech=SIM + "; rule: RFC 3492 section 6.3", note=SIMNOTE)

prop("C30", "Decompressing the tables never leaves its buffers",
     "deflate::inflate_raw(src, src_len, dst, dst_cap) reads only the src_len bytes of src, writes only the dst_cap bytes of dst, accesses its own arrays and constant tables only inside their bounds, and returns at most dst_cap, for every content of src (including malformed streams and over- or undersubscribed codes).",
     ["inputs"], "all byte strings as input, all buffer sizes below 2^62",
     "Repeat counts, code lengths, symbols, distances and sizes all come from the stream; a bound that is off by one matters for one crafted stream only.",
     ["src/raw_inflate.hpp"],
     [("bit reader", "BitReader::ensure, BitReader::get"), ("codes", "Huff::build, Huff::decode"), ("blocks", "inflate_raw"), ("tables", "len_base, len_extra, dist_base, dist_extra, kFixedLitLenHuff, kFixedDistHuff")],
     ["memory accesses", "returned size"],
     tech="bounds analysis of the IR with everything inlined: each access is a linear obligation, proved backwards over the dominating conditions with inferred inductive loop inequalities (templates, greatest fixpoint), intervals for the content of arrays, and recognised canonical-code tables (counting, first codes, buckets); Fourier-Motzkin elimination, no solver",
     note="All inputs and all loop iterations. Trusts clang's front end and LLVM's inliner/SROA, and that src and dst are as large as stated and do not overlap. Unknown pointers or code tables that are not recognised are reported as UNDECIDED. ")

prop("C06", "to_ascii rejects an input only for a reason the rules give",
     "If to_ascii returns false for an input within the length limit, then the input is malformed UTF-8 or contains a disallowed code point, or one of the labels of the mapped, normalised input is invalid or cannot be encoded: an xn-- label that is not ASCII or whose decoding fails, is empty or pure ASCII, is changed by mapping or normalisation, or breaks the validity rules, or another label that breaks the validity rules or cannot be encoded. (The only other reason is that the tables cannot be initialised.)",
     ["inputs"], "all inputs, every label position and combination of labels",
     "An additional or inverted rejection (a length, a position, a combination of labels) concerns inputs no test lists; every failing path must be traced to one of the permitted outcomes, for the right text.",
     ["src/to_ascii.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/punycode.cpp", "src/validity.cpp"],
     [("failure exits", "to_ascii(std::string_view, std::string&)")],
     ["returned bool"], tech=PATHS + "; rule: every failing path carries a permitted reason", note=SOUND)

prop("C11", "to_unicode decodes every xn-- label that can be decoded",
     "to_unicode leaves a label of the input as it is only if it does not start with \"xn--\", is not pure ASCII, or its decoding fails, is empty or pure ASCII, is changed by mapping or normalisation, breaks the validity rules or has no UTF-8 form (or the tables cannot be initialised). Every other label is shown decoded.",
     ["inputs"], "all inputs within the length limit, every label position and combination",
     "A label that is wrongly left encoded (for its length, position or first character) is noticed only by a test with just such a label.",
     ["src/to_unicode.cpp", "src/punycode.cpp", "src/validity.cpp"],
     [("label loop", "to_unicode(std::string_view, std::string&)")],
     ["result string"], tech=PATHS + "; rule: every verbatim label carries a permitted reason", note=SOUND)

prop("C31", "No pointer or view into a string is used after the string may have moved",
     "The library never reads or writes through a pointer, iterator or view into a string (its own or the caller's output object) after an operation that can replace, shrink or free that string's buffer, and never passes a function an input view of the very string object it changes, unless that function is done with the view before. Freed memory is not accessed or freed again.",
     ["inputs", "histories"], "all paths of every function of the library, all growth patterns of the strings",
     "Reallocation depends on the capacity at hand; a stale pointer mostly still sees the old bytes, so a test passes with it.",
     ["src/to_ascii.cpp", "src/to_unicode.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/punycode.cpp", "src/table_store.hpp"],
     [("label loop", "to_ascii(std::string_view, std::string&)"), ("decomposition and composition", "normalize(std::u32string&)"), ("output buffers", "map(std::u32string_view, std::u32string&)")],
     ["memory accesses"],
     tech="ownership and freshness analysis of the IR: may-dataflow of 'a view of string S taken before its last invalidating operation' over every function, with summaries of what callees invalidate and of views they return or still use",
     note="All paths of all functions, both configurations. Trusts clang's front end and the invalidation rules of std::string. Aliasing between a caller's argument view and the output object is excluded for views the caller passes (except inside the library's own calls).")


prop("C23", "to_unicode undoes to_ascii",
     "For every domain d for which to_ascii(d) succeeds, to_unicode(to_ascii(d)) is the mapped, normalised form of d, and to_ascii of that gives to_ascii(d) again.",
     ["inputs"], "all domains for which to_ascii succeeds",
     "It relates four procedures (mapping, normalisation, punycode both ways) over unbounded strings.",
     ["src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp"],
     [("conversions", "to_ascii, to_unicode"), ("punycode", "utf32_to_punycode, punycode_to_utf32")],
     ["result strings"],
     na="An equality between the composition of two different arithmetic programs on unbounded sequences and the identity: it needs an inductive proof about numbers that no dataflow or syntactic argument reaches. Each procedure is decided against its own specification instead (C03-C08, C11, C16-C18, C22, C36).")

prop("C24", "Conversions take time proportional to what the limits allow",
     "No input within the length limit makes a call take more than a small multiple of (input length squared) elementary steps, and memory stays proportional to the input.",
     ["inputs"], "all inputs within the length limit",
     "The costly inputs (many marks in reverse order, many distinct code points in punycode) are special and long.",
     ["src/normalization.cpp", "src/punycode.cpp", "src/mapping.cpp"],
     [("sorting of marks", "sort_marks"), ("punycode insertion", "punycode_to_utf32"), ("length limit", "max_domain_input_bytes")],
     ["running time", "memory"],
     na="The number of steps is a runtime quantity that depends on values computed by the loops (decoded deltas, run lengths, library insertions); a bound over them is a cost analysis for which no sound static argument is in reach here. The length limit itself is decided by C01, buffer sizes by C34.")
