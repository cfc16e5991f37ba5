"""The properties, and the runs that decide each of them.  mkdocs.py writes properties.jsonl and MANIFEST.json from this."""
ASSUME = [
 "the code under test is compiled from /repo's working tree by clang 18 at -O1 for x86-64 and its LLVM IR is instrumented; every claim is within the stated bounds only",
 "libxml2 (writer, push parser, tree), iconv and SHA-1 are models in the symbolic build (models/); sampled paths are replayed against the real libraries and every reported violation has been reproduced on a native build",
 "memory allocation does not fail; the standard library behaves as its headers and the installed libstdc++ say",
]
P = {}      # id -> property
CHECKS = {} # id -> runs
NA = {}     # id -> reason
def prop(id, title, statement, over, text, why, files, mech, runs=None, assumptions=(), na=None, note=None, observe=()):
    P[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}}
    if na: NA[id] = na
    else: CHECKS[id] = {"runs": runs, "assumptions": list(assumptions), "note": note}

S_ALL = "95 source texts of 2-100 bytes in C, C++, C#, Java and Objective-C that cover the constructs of the grammar; "
S_POS = "at every position (quick: every third for replacement in the first 47 texts; every third and ninth in the others) the byte there is replaced by, or preceded by, 1 (quick) or 2 (thorough) arbitrary bytes below 0x80"
PARSER = ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/srcMLOutput.cpp", "src/parser/KeywordLexer.g", "src/parser/TextLexer.g", "src/parser/CommentTextLexer.g", "src/parser/OperatorLexer.g"]

prop("C01", "Source code survives conversion to srcML and back",
 "For every source text, in every supported language, converting it to srcML and converting the result back yields the original text, with line endings normalised.",
 ["inputs", "configurations"], "all texts, languages and parser options",
 "The parser tests compare markup for some thousands of hand-written fragments; the claim is over every text, also malformed, truncated or with unusual characters.",
 PARSER + ["src/libsrcml/srcml_translator.cpp", "src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_sax2_reader.cpp"],
 [("every token, also skipped ones, is written once and in order", "src/parser/StreamMLParser.hpp consume, consumeSkippedToken, pauseStream"), ("control characters become escape elements", "src/parser/srcMLOutput.cpp processText"), ("tags are removed and entities decoded", "src/libsrcml/unit_utilities.cpp, src/libsrcml/srcml_unit.cpp unparse")],
 [dict(harness="parse", defs_quick=["-DPROP=1", "-DTIER=1"], defs_thorough=["-DPROP=1", "-DTIER=2", "-DNB=2"], budget_quick=110, budget_thorough=800, bounds=S_ALL + S_POS, reach=["parsed and checked"])],
 note="bytes 0x80 and above are covered by C05; texts outside the neighbourhoods are not covered")

prop("C02", "The srcML document is well-formed XML that contains exactly the source text",
 "For every source text, the document written for it is well-formed, namespace-correct XML with one unit per source, and the text of the unit, with escape elements decoded, is exactly the source text.",
 ["inputs", "configurations"], "all texts, languages and parser options",
 "Tests check a fixed set of fragments; nesting of start and end tags depends on parser state that any text can drive.",
 PARSER + ["src/libsrcml/srcml_translator.cpp"],
 [("every mode that starts an element ends it", "src/parser/StreamMLParser.hpp startElement, endMode, endAllModes"), ("text is escaped on output", "src/parser/srcMLOutput.cpp")],
 [dict(harness="parse", defs_quick=["-DPROP=2", "-DTIER=1"], defs_thorough=["-DPROP=2", "-DTIER=2", "-DNB=2"], budget_quick=110, budget_thorough=800, bounds=S_ALL + S_POS + "; the document is read by an independent strict XML reader", reach=["parsed and checked"])])

prop("C03", "Parsing ends with a document for every text and configuration",
 "For every text, also one that stops in the middle of a construct or is in another language than the one given, and every combination of parser options, parsing ends without a crash or an endless loop, reports success, and writes one well-formed unit with exactly that text.",
 ["inputs", "configurations"], "all texts, languages and parser options",
 "Tests use complete constructs in the right language with the default options; what the parser does when the text stops, or a construct of another language is met, is not sampled.",
 PARSER + ["src/libsrcml/srcml_translator.cpp"],
 [("every call of the start rule makes progress or consumes a token", "src/parser/StreamMLParser.hpp fillTokenBuffer, nextToken"), ("all open modes are ended at the end of the text", "src/parser/srcMLParser.g endAllModes, eof")],
 [dict(harness="parse", defs_quick=["-DPROP=3", "-DTIER=1"], defs_thorough=["-DPROP=3", "-DTIER=2", "-DNB=2"], budget_quick=110, budget_thorough=800, bounds=S_ALL + "each truncated at every position, in every language (quick: every tenth of these pairs), with 1 (quick) or 2 (thorough) arbitrary bytes below 0x80 appended, with 5 sets of options; a path that does not end in 8 s is reported", reach=["parsed and checked"])],
 note="the texts are no longer than 100 bytes; growth of the time with the size of the text is not decided")

prop("C08", "Positions in the markup are where the text is",
 "With positions enabled, the start and end line and column recorded on a token (name, literal, operator, comment, specifier) are those of its text in the source, counting tabs by the archive's tab size, and a compound element starts where its first token starts and ends where its last token ends; every such token has a position; the type of a later name of a declaration is where that of the first is.",
 ["inputs", "configurations"], "all texts, tab sizes and options",
 "Tests check positions on a few texts without unusual bytes, tabs inside tokens or directives in between.",
 PARSER + ["src/libsrcml/srcml_translator.cpp"],
 [("columns and tabs are counted by the lexers", "src/parser/srcMLToken.hpp, antlr::CharScanner::tab, setTabsize in srcml_translator.cpp"), ("end positions are recorded on consume", "src/parser/StreamMLParser.hpp consume")],
 [dict(harness="markup", defs_quick=["-DPROP=8", "-DTIER=1"], defs_thorough=["-DPROP=8", "-DTIER=2", "-DNB=2"], budget_quick=110, budget_thorough=800, bounds=S_ALL + S_POS + "; tab size 4; the option that leaves #else branches unmarked is outside the claim; the end of a compound element may alternatively be that of the skipped text (comment, directive, line continuation) that follows inside it", reach=["parsed and checked"])])

ARCH = ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_translator.cpp", "src/parser/srcMLOutput.cpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/unit_utilities.cpp"]
prop("C09", "The views of a unit agree with each other and with the document",
 "For every unit, parsed or read, in an archive or solitary, in whatever order they are requested: the full and outer views are one well-formed unit element with the unit's attributes, the inner view is exactly the content of both, and all have the content of the unit as written and the text of its source.",
 ["inputs", "histories"], "all unit contents and attributes, and all orders of requesting the views",
 "Tests compare fixed strings for one or two units; where the unit tag ends depends on the attributes and namespaces present.",
 ARCH, [("recorded offsets of the content inside the stored unit", "src/libsrcml/sax2_srcsax_handler.cpp start_unit, end_unit; src/libsrcml/srcml_translator.cpp"), ("construction of the views", "src/libsrcml/srcml_unit.cpp srcml_unit_get_srcml*, src/libsrcml/unit_utilities.cpp")],
 [dict(harness="archive", defs=["-DPROP=9"], budget_quick=60, budget_thorough=400, bounds="7 kinds of unit (parsed or read, archive or solitary, with archive url, empty) x 3 sources x one arbitrary byte at any position of the source or one arbitrary attribute character in the filename x 3 orders; sources of 1 or 2 arbitrary characters", reach=["views checked"])])
prop("C10", "Units keep their order, content and attributes in an archive",
 "A document written from any sequence of units has exactly those units, in order, each with its own attributes and content; reading it returns the same sequence and then the end, and whether it is an archive or a solitary unit is recognised on reading.",
 ["inputs", "histories"], "all sequences of units",
 "Tests use one to three fixed units; state left over from one unit to the next depends on their content.",
 ARCH, [("units are appended to the open document", "src/libsrcml/srcml_archive.cpp srcml_archive_write_unit"), ("a reader thread hands over units one at a time", "src/libsrcml/srcml_sax2_reader.cpp, src/libsrcml/srcml_reader_handler.hpp")],
 [dict(harness="archive", defs=["-DPROP=10"], budget_quick=60, budget_thorough=400, bounds="0 to 3 units, archive and solitary, each from 5 sources, one of them with an arbitrary byte; the reader thread runs to its next blocking point (schedules: C21)", reach=["archive checked"])])
prop("C11", "Attribute values survive writing and reading",
 "Any value set for a filename, version, timestamp, source encoding, archive url or version, or processing instruction appears as that value in the written XML, and the same value is returned when the document is read and when the unit is copied into another archive; attributes srcML does not know are kept with their values.",
 ["inputs"], "all values of characters XML allows",
 "Tests use plain words; quoting, entities and white space in values are not tried.",
 ARCH, [("attributes are escaped by the XML writer and decoded by the parser", "src/parser/srcMLOutput.cpp startUnit, src/libsrcml/srcml_sax2_utilities.cpp, src/libsrcml/sax2_srcsax_handler.cpp")],
 [dict(harness="archive", defs_quick=["-DPROP=11", "-DNB=2"], defs_thorough=["-DPROP=11", "-DNB=3", "-DTIER=2"], budget_quick=60, budget_thorough=400, bounds="11 attribute positions x values of 4 (thorough 5) characters of which 2 (3) are arbitrary: printable ASCII, tab, newline; one value of 602 characters; documents with 2 or 3 (thorough 4) attributes of other tools out of 4 (5) names with 4 values, in any order, on the root or the unit, copied into an archive or a solitary unit", reach=["attribute checked"])])
prop("C12", "Any sequence of read and skip on an archive returns the right units",
 "However reading, skipping, and requesting the content or source of a unit are interleaved on an archive being read, and wherever it is closed, each call acts on the unit at the cursor, returns that unit's own attributes and content, reports the end exactly when the units are used up, and closing ends the reader.",
 ["histories", "inputs"], "all sequences of operations",
 "Tests use a few fixed sequences over at most three units.",
 ARCH + ["src/libsrcml/srcml_reader_handler.hpp"], [("header and body are read separately by the reader thread", "src/libsrcml/srcml_sax2_reader.cpp, src/libsrcml/srcml_reader_handler.hpp, src/libsrcml/srcml_archive.cpp")],
 [dict(harness="archive", defs=["-DPROP=12"], budget_quick=60, budget_thorough=400, bounds="archives of 1 to 3 units and a solitary unit, with one arbitrary byte in the second unit; up to n+1 operations out of {skip, read, read+srcml+source, read+source+srcml}, closing after any number of them", reach=["sequence checked"])])

INP = ["src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_translator.cpp"]
prop("C04", "The document does not depend on how the source is delivered",
 "The same source gives the same document whether it comes from memory, a file name, a stream, a descriptor or read callbacks, and however it is split into reads; a failing read is reported as an error, and the library closes what it opened and calls a given close callback exactly once.",
 ["inputs", "fault_sequences"], "all texts, all splits into reads, failures at any read",
 "Tests deliver whole small ASCII texts in one read; characters and line endings split over reads, and the edge of the internal buffer, are not reached.",
 INP, [("one buffer that converts and hands out characters", "src/parser/UTF8CharBuffer.cpp readChars, getChar"), ("wrappers for each kind of input", "src/libsrcml/srcml_unit.cpp srcml_unit_parse_*")],
 [dict(harness="deliver", defs=["-DPROP=4"], budget_quick=80, budget_thorough=400, bounds="short texts with 1 arbitrary ASCII byte or one arbitrary two-byte character, in reads of 1, 2, 3 or all bytes with a first read of 1 to 5; texts of 1020 to 1030 and 4092 to 4102 bytes with 2 symbolic bytes around the 1024- and 4096-byte buffers, from every kind of input; a read that fails at any of 6 reads; compared with delivery from memory", reach=["delivered"])])
prop("C05", "Characters are converted from and to the encoding in force",
 "With any supported encoding, that of the unit, else of its archive, else ISO-8859-1, or found from a byte order mark, the characters of the document are those of the source, the encoding in use is reported, and writing the source back in an encoding gives these characters in it; source that is not valid in its encoding is an error and is never silently shortened.",
 ["inputs", "configurations"], "all characters and encodings",
 "Tests use a few fixed non-ASCII characters in UTF-8 and ISO-8859-1.",
 INP, [("byte order marks, defaults and conversion", "src/parser/UTF8CharBuffer.cpp readChars"), ("the encoding of the output", "src/libsrcml/srcml_unit.cpp srcml_unit_unparse_internal")],
 [dict(harness="deliver", defs=["-DPROP=5"], budget_quick=80, budget_thorough=400, bounds="16 combinations of UTF-8, ISO-8859-1, UTF-16 (LE, BE, with and without byte order mark), UTF-32 with byte order mark, and the default; one arbitrary character (U+0001..U+07FF; one configuration U+0800..U+D7FF; U+0001..U+00FF for ISO-8859-1 and UTF-32) in a string, a comment or code; 3 arbitrary bytes as UTF-8 or UTF-16LE; delivered from memory or in reads of 3 bytes; 4 encodings or none on the archive and on the unit, when parsing and when writing source, with one of 97 characters; 6 encodings with text around 1024 and 4096 bytes and an arbitrary character there, delivered at once or in pieces", reach=["encoded"])])
prop("C06", "Line endings are normalised in the document and chosen on output",
 "Every CR LF, CR and LF of the source is one line feed in the document; writing the source with a chosen line ending turns every line feed into exactly that ending, changes nothing else, and leaves the unit itself unchanged.",
 ["inputs", "configurations"], "all texts and line ending settings",
 "Tests use fixed texts with one kind of line ending.",
 INP, [("carriage returns are converted while reading", "src/parser/UTF8CharBuffer.cpp getChar"), ("line endings are converted on output", "src/libsrcml/srcml_unit.cpp srcml_unit_unparse_internal")],
 [dict(harness="deliver", defs=["-DPROP=6"], budget_quick=80, budget_thorough=400, bounds="4 texts with mixed line endings, one arbitrary ASCII byte inserted or replaced, or one followed by CR or LF inserted, at any position; all 4 settings", reach=["converted"])])
prop("C07", "Hash and lines of code describe the source of the unit",
 "For every source and way of delivery, also when a unit is parsed again, the hash of a unit is the SHA-1 of the bytes of its source, its lines of code are the lines of its source, both are the same after writing and reading, and there is no hash when hashing is disabled.",
 ["inputs", "histories"], "all texts, encodings and deliveries",
 "Tests compare a few fixed hashes and counts.",
 INP + ["src/libsrcml/unit_utilities.cpp"], [("bytes are hashed as they are read", "src/parser/UTF8CharBuffer.cpp readChars, destructor"), ("lines are counted in the extracted source", "src/libsrcml/srcml_unit.cpp srcml_write_end_unit")],
 [dict(harness="deliver", defs=["-DPROP=7"], budget_quick=80, budget_thorough=400, bounds="3 texts with one arbitrary ASCII byte inserted at any position, as UTF-8 or UTF-16LE; from memory, callbacks (reads of 3), a file, a second parse of the unit, with hashing disabled, and as one of three units of an archive that are read or skipped", reach=["hashed"])],
 assumptions=["in the symbolic build SHA-1 is a stub that distinguishes short texts; the native replay compares the real digest"])

API = ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/libsrcml.cpp"]
prop("C13", "Registered namespaces are the ones used and declared",
 "After any registrations, lookups by prefix, URI and position agree with what was registered; every element of a written document has the registered prefix and the right namespace, registered namespaces are declared, and a unit that is read back, and copied to another archive, is in the same namespaces.",
 ["inputs", "histories", "configurations"], "all sequences of registrations",
 "Tests register a few fixed prefixes and compare whole documents.",
 API + ["src/parser/srcMLOutput.cpp", "src/libsrcml/srcmlns.cpp"], [("a table of prefixes and URIs per archive, merged with the defaults and with those of the unit", "src/libsrcml/srcmlns.cpp operator+=, src/libsrcml/srcml_translator.cpp add_unit, src/parser/srcMLOutput.cpp outputNamespaces")],
 [dict(harness="api", defs_quick=["-DPROP=13"], defs_thorough=["-DPROP=13", "-DTIER=2"], budget_quick=60, budget_thorough=400, bounds="up to 2 (thorough 3) registrations out of 5 namespaces x (default prefix, prefix starting with one of 3 characters, fixed prefix), all positions from the end of the table up to 2^64-1; archive and solitary, with positions, read and copied", reach=["namespaces checked"])],
 assumptions=["two namespaces are not given the same prefix, and only the srcML namespace is given the default prefix"])
prop("C14", "Options do exactly what they say and are recorded",
 "After any sequence of setting, enabling and disabling options, hashing, solitary unit and tab size, each is what was last set and no other, and the document depends only on what is set, not on the calls that led there; positions, #if 0 and #else are marked up exactly as the options say, and these options and the tab size are recorded in the document and come back when it is read.",
 ["inputs", "histories", "configurations"], "all combinations and orders of options",
 "Tests set single options one at a time, and do not parse after set_options.",
 API + ["src/parser/srcMLParser.g", "src/libsrcml/srcml_reader_handler.hpp"], [("options are bits of one word, public and private", "src/libsrcml/srcml_archive.cpp srcml_archive_set_options, enable_option, disable_option"), ("options are written as an attribute and parsed when read", "src/parser/srcMLOutput.cpp startUnit, src/libsrcml/srcml_reader_handler.hpp startRoot")],
 [dict(harness="api", defs_quick=["-DPROP=14"], defs_thorough=["-DPROP=14", "-DTIER=2"], budget_quick=90, budget_thorough=600, bounds="3 (thorough 4) operations out of 8, with an arbitrary set of options (16-bit value over the public options) or an arbitrary tab size; 1 or 2 operations followed by parsing two units, with 12 tab sizes, as archive and as solitary unit; 1 or 2 (thorough 3) operations with any set of options first and one of 8 after, against enabling the same options one at a time, 2 languages, with and without directives", reach=["options checked"])])
prop("C15", "The language of a unit is the one set, or that of its file extension",
 "A language set on the unit, else on the archive, else the language registered last for the extension of the file name, is the one used to parse and recorded in the document; without any the parse is refused; exactly the listed languages can be set or registered.",
 ["inputs", "configurations"], "all file names, registrations and language names",
 "Tests list some extensions one by one.",
 API + ["src/libsrcml/language_extension_registry.cpp", "src/libsrcml/Language.cpp"], [("a list of extensions searched from the end", "src/libsrcml/language_extension_registry.cpp"), ("the language is derived when parsing", "src/libsrcml/srcml_unit.cpp srcml_unit_parse_filename, srcml_unit_parse_internal")],
 [dict(harness="api", defs=["-DPROP=15"], budget_quick=60, budget_thorough=400, bounds="file names of 4 forms ending in 2 or 3 arbitrary characters (when a file is parsed: 2 of 8 characters), optionally with .gz; up to 2 registrations with extensions of 1 or 2 characters out of 4; language names of up to 12 characters ending in up to 3 arbitrary bytes; languages set on the unit and the archive", reach=["language checked"])])
prop("C17", "A clone has the same setup and is independent",
 "A clone of an archive or unit has every setting of the original and writes the same document, whatever the original was used for before; changing, using or freeing either leaves the other as it was.",
 ["inputs", "histories"], "all settings and orders",
 "Tests compare a few getters of one clone.",
 API, [("archives and units are copied member by member", "src/libsrcml/srcml_archive.cpp srcml_archive_clone, src/libsrcml/srcml_unit.cpp srcml_unit_clone")],
 [dict(harness="api", defs_quick=["-DPROP=17"], defs_thorough=["-DPROP=17", "-DTIER=2"], budget_quick=60, budget_thorough=400, bounds="two settings out of 14 for an archive (second: one of the three following; thorough: any) or 6 for a unit, with values starting with an arbitrary (archive: one of 4) byte; then any one setting changed on either side, or the original freed; parsed before cloning or not; archives in 7 states of use (open, with a string, unit or element written, closed, being read) with one of 14 settings, cloned and used in 4 ways, against a fresh archive", reach=["cloned"])])
prop("C19", "A unit written element by element has exactly what was written",
 "Any sequence of starting and ending elements and writing attributes, namespaces and text gives a well-formed document with exactly these, a call that does not fit the state is refused and changes nothing, and the source of the unit is its text.",
 ["inputs", "histories"], "all sequences of calls and all texts",
 "Tests write one fixed sequence per function.",
 API + ["src/libsrcml/srcml_translator.cpp"], [("calls go to an XML writer after a check of the depth", "src/libsrcml/srcml_translator.cpp add_start_element, add_end_element, add_attribute, add_namespace, add_string"), ("the start tag of the unit is rewritten at the end", "src/libsrcml/srcml_unit.cpp srcml_write_end_unit")],
 [dict(harness="api", defs_quick=["-DPROP=19"], defs_thorough=["-DPROP=19", "-DTIER=2"], budget_quick=60, budget_thorough=400, bounds="5 (thorough 6) calls out of {start, start with prefix, start of a unit, end, text}; 4 calls with text or attribute values of which 2 characters are arbitrary printable ASCII, tab or newline; the unit written twice", reach=["written"])])
prop("C20", "Calls that do not fit are refused and change nothing",
 "In every sequence of calls on an archive and a unit, a call made in the wrong state or without a required argument returns an error (or nothing) and changes nothing: every other call gives what it would give without it, and numbers that are accepted are the ones returned.",
 ["inputs", "histories"], "all sequences of calls, all missing arguments and all numbers",
 "Tests call single functions with a null argument in one fixed state.",
 API + ["src/libsrcml/srcml_transform.cpp"], [("each function checks its arguments and the state of the archive", "src/libsrcml/srcml_archive.cpp, src/libsrcml/srcml_unit.cpp, at the start of each function"), ("a unit counts as read when its header or its body was", "src/libsrcml/srcml_types.hpp read_header, read_body")],
 [dict(harness="state", defs_quick=["-DPROP=20"], defs_thorough=["-DPROP=20", "-DTIER=2"], budget_quick=80, budget_thorough=600, bounds="4 (thorough 5) calls out of {open for writing, open for reading, write a unit, read, skip, close, parse, write the unit read, source of the unit} with a document of two units and 3 values of a source byte; every function with each required argument missing, and with names and numbers that do not exist, with a valid archive and unit whose source byte is arbitrary printable ASCII, every setting compared before and after; eol, tab size and revision arbitrary 64-bit", reach=["history"])],
 assumptions=["an archive that is open is not opened again before it is closed"])
prop("C22", "Archives do not influence each other",
 "For every interleaving of what is done with two archives, each gives exactly what it gives alone.",
 ["histories", "schedules"], "all interleavings of the steps of two archives",
 "Tests use one archive after the other.",
 API + ["src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/parser/srcMLOutput.cpp"], [("state is per archive, per parse or per reader; each reader has a thread", "src/libsrcml/srcml_types.hpp, src/libsrcml/srcml_sax2_reader.cpp, src/libsrcml/sax2_srcsax_handler.hpp"), ("tables of the output and of the parser are shared", "src/parser/srcMLOutput.cpp, src/parser/srcMLParser.g")],
 [dict(harness="state", defs_quick=["-DPROP=22"], defs_thorough=["-DPROP=22", "-DTIER=2"], budget_quick=60, budget_thorough=500, bounds="all 252 interleavings of two scripts of 5 steps, each compared with running alone in a fresh process: writing, reading, writing by element, the convenience function, in 6 pairs, each with 3 setups (positions and a prefix; no hash, solitary, another encoding, a registered extension) and 3 values of a source byte; calls come from one thread", reach=["independent"])])
prop("C30", "Documents and source are the same wherever they are written",
 "For every document, source, encoding and size, what is written to memory, a file, a FILE, a descriptor or callbacks is the same; outputs opened by the library are closed exactly once and those of the caller stay open; a destination that cannot be opened, and source that cannot be written, is an error.",
 ["inputs", "faults", "configurations"], "all documents, encodings, destinations and points of failure",
 "Tests compare a few fixed short documents and never let a write fail.",
 API + ["src/parser/srcMLOutput.cpp"], [("libxml2 output buffers of each kind", "src/libsrcml/srcml_archive.cpp srcml_archive_write_open_*, src/libsrcml/srcml_unit.cpp srcml_unit_unparse_*")],
 [dict(harness="out", defs=["-DPROP=30"], budget_quick=60, budget_thorough=300, bounds="source with one arbitrary ASCII byte (3 values in the texts of 4 to 8 kB, 6 sizes around the buffer sizes); 0 to 2 units, 3 encodings, solitary, with and without XML declaration, closed or only freed; 5 destinations; the write that fails among the first 4, and a failing close; source in 3 encodings and 4 line endings", reach=["output checked"])],
 assumptions=["files are those of the virtual file system of the engine; the native replay uses real files"])
prop("C32", "The convenience function does what the archive functions do",
 "For every file name, source and settings, srcml() writes the document or source that the functions on archives and units write with the same settings, recognises exactly the known extensions, reports failures, and its settings read back like those of an archive.",
 ["inputs", "configurations", "histories"], "all settings and file names",
 "Tests compare single settings.",
 API, [("a global archive is cloned for each call", "src/libsrcml/libsrcml.cpp srcml, global_archive, global_unit")],
 [dict(harness="state", defs_quick=["-DPROP=32"], defs_thorough=["-DPROP=32", "-DTIER=2"], budget_quick=60, budget_thorough=500, bounds="2 (thorough 3) settings out of 14 with values starting with one of 4 bytes and one of 3 numbers (the second: one of three; thorough: any); names formed by replacing or inserting one of 9 characters in 7 names; the line ending an arbitrary 64-bit number; failures: a missing source or document, an output that cannot be created (4 kinds), a document cut off in its first unit, each followed by a conversion that succeeds", reach=["converted"])])
prop("C33", "A closed archive can be used again",
 "An archive that was closed can be opened again for reading or writing and behaves like a new one; closing it again changes nothing.",
 ["histories"], "all sequences of opening, using and closing",
 "Tests create an archive for each document.",
 API, [("closing releases the output, the reader and the caller's buffer", "src/libsrcml/srcml_archive.cpp srcml_archive_close")],
 [dict(harness="state", defs_quick=["-DPROP=33"], defs_thorough=["-DPROP=33", "-DTIER=2"], budget_quick=40, budget_thorough=400, bounds="5 (thorough 6) calls out of {open for writing, open for reading, write or read a unit, close, close again}", reach=["history"])])
prop("C21", "What is read does not depend on how threads are scheduled",
 "For every document, valid, truncated or damaged, and every way in which the thread of the reader and the thread of the caller take turns, including spurious wake-ups, the same units are read; there is no deadlock, no crash, and no thread left when the archive is freed. Archives read in different threads do not influence each other.",
 ["schedules", "inputs", "histories"], "all schedules of the reader thread and the callers, all truncated or damaged documents",
 "Tests run one schedule, the usual one.",
 API + ["src/libsrcml/sax2_srcsax_handler.cpp"], [("the reader thread and the caller hand over under one mutex and condition", "src/libsrcml/srcml_sax2_reader.cpp, src/libsrcml/srcml_reader_handler.hpp")],
 [dict(harness="sched", defs=["-DPROP=21"], defs_quick=["-DPRE=1", "-DDEL=1", "-DSTEP=5"], defs_thorough=["-DPRE=2", "-DDEL=2", "-DTIER=2"], budget_quick=60, budget_thorough=800, build=dict(coro_native=True), bounds="documents: an archive of two units, a solitary unit, an empty archive, each complete, cut at any byte, or with an arbitrary byte at every fifth (thorough: any) position; 6 (2 for damaged documents in the quick tier) sequences of read, skip and close; every switch at a lock, unlock, wait, signal or create, up to 2 (thorough 3) preemptions, 1 (thorough 2) for damaged documents, and one spurious wake-up; two callers with an archive each: 1 (thorough 2) deviations, anywhere, from running to completion", reach=["read"])],
 assumptions=["threads switch only at synchronisation operations; data races between them are not modelled", "the model of libxml2 has the whole document in its buffer"])
prop("C31", "Documents written by other tools are read correctly",
 "For every well-formed srcML document, in whatever way its tags, attributes, references, comments, CDATA, processing instructions and namespaces are written and however long its text, the library gives each unit's attributes, markup and source as in the document, and a copy is well-formed and has the same content.",
 ["inputs"], "all spellings of a srcML document",
 "Tests read documents that srcML wrote, and few others.",
 API + ["src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_translator.cpp", "src/parser/srcMLOutput.cpp"], [("markup is collected from the input buffer of the parser and its callbacks", "src/libsrcml/sax2_srcsax_handler.cpp start_unit, characters_unit, start_element_ns, end_element_ns"), ("the unit and its root are written again with merged namespaces", "src/libsrcml/srcml_translator.cpp add_unit, src/parser/srcMLOutput.cpp outputNamespaces")],
 [dict(harness="extern", defs_quick=["-DPROP=31"], defs_thorough=["-DPROP=31", "-DTIER=2"], budget_quick=60, budget_thorough=600, bounds="2 (thorough 3) pieces of content out of 19 kinds (references, comments, CDATA, processing instructions, empty elements, quotes, line ends) with an arbitrary printable byte; runs of text of 49 to 611 (thorough 905) repetitions of 6 strings in each kind of content; 9 forms of start tags of units; 6 kinds of content between units, and before and after the root; prefixes and 7 namespaces declared on the root or on units; the namespaces of earlier versions; namespaces of the root redeclared by a unit (same, another prefix, the prefix for another namespace; 4 namespaces); lists of macros before the units; copies in a new archive or a clone", reach=["read"])],
 assumptions=["carriage returns are normalised as XML prescribes before documents are compared"])
prop("C16", "A revision of a srcDiff document is exactly that revision",
 "For every srcDiff document, with the original or the modified revision set, the markup, source and copies of each unit contain what belongs to that revision and nothing that belongs to the other only, and without a revision set everything; attributes of a copy with a value for each revision have that of the revision.",
 ["inputs", "configurations", "histories"], "all srcDiff documents, revisions and sequences of setting them",
 "Few tests read a srcDiff document, and none its source.",
 API + ["src/libsrcml/unit_utilities.cpp"], [("elements of the other revision are left out of the text of the markup", "src/libsrcml/unit_utilities.cpp extract_revision, attribute_revision"), ("the views of a unit and its copy use the revision of the archive", "src/libsrcml/srcml_unit.cpp, src/libsrcml/srcml_translator.cpp add_unit")],
 [dict(harness="revision", defs_quick=["-DPROP=16"], defs_thorough=["-DPROP=16", "-DTIER=2"], budget_quick=60, budget_thorough=600, bounds="two nested changes, or 3 (thorough 4) in sequence, of insert, delete, common and ws, around 12 kinds of content (text with an arbitrary printable byte, elements, references, comments, CDATA, processing instructions and attributes that contain markup characters, escapes); two prefixes, declared on the root or the units; archives and solitary units; the revision not set, each, and changed between views; revision numbers arbitrary 64-bit", reach=["revision"])])
LEX = ["src/parser/CommentTextLexer.g", "src/parser/TextLexer.g", "src/parser/OperatorLexer.g", "src/parser/StreamMLParser.hpp"]
prop("C27", "Comments and quoted literals are marked up exactly as the language has them",
 "For every text, each comment element is exactly one comment of the source with its type, and each string and character literal element exactly one literal of the source, nothing inside one starts another, and none is missed.",
 ["inputs"], "all texts and languages",
 "Tests have well-formed comments and strings apart from each other; quotes, stars, slashes, backslashes and line ends next to each other are what breaks it.",
 PARSER + LEX, [("the text of comments and quotes is read by a lexer of its own", "src/parser/TextLexer.g LINE_COMMENT_START, STRING_START, CHAR_START, src/parser/CommentTextLexer.g COMMENT_TEXT"), ("comments are attached as skipped tokens", "src/parser/StreamMLParser.hpp consumeSkippedToken")],
 [dict(harness="markup", defs_quick=["-DPROP=27"], defs_thorough=["-DPROP=27", "-DLEN=4"], budget_quick=100, budget_thorough=700, bounds="5 languages x 15 contexts (code, comments of each kind, strings, characters, prefixed, raw strings in three forms, in and after verbatim strings, end of text) x 3 (thorough 4) arbitrary characters out of 18 (quotes, stars, slashes, backslash, line end, parentheses, prefixes, blanks); texts with an unterminated literal, a text block, a line comment continued by a backslash, or a conditional directive are outside the claim", reach=["parsed and checked"]),
  dict(harness="markup", tier="thorough", defs=["-DPROP=27", "-DEDITS"], budget_quick=1, budget_thorough=150, bounds="thorough only: " + S_ALL, reach=["parsed and checked"])])
prop("C28", "Preprocessor directives are confined to their lines",
 "For every text, each preprocessor directive of the source is one element that starts at its number sign and ends on its line or the lines that continue it, and nothing else is an element of the preprocessor; so that code after a directive, however malformed, is never part of it.",
 ["inputs"], "all texts and languages with a preprocessor",
 "Tests have complete directives; unbalanced quotes and parentheses, empty comments and continued lines at the end of a directive are not tried.",
 PARSER + LEX, [("a directive ends at the line end, which other rules must not consume", "src/parser/srcMLParser.g preprocessor, eol_skip, macro_call_contents, omp_argument; src/parser/CommentTextLexer.g"), ("a directive starts a line", "src/parser/OperatorLexer.g OPERATORS startline")],
 [dict(harness="markup", defs_quick=["-DPROP=28"], defs_thorough=["-DPROP=28", "-DLEN=4"], budget_quick=85, budget_thorough=700, bounds="4 languages x 14 contexts (code, each kind of directive, statements, blocks, strings) x 3 (thorough 4) arbitrary characters out of 14 (number sign, line end, backslash, quotes, comment characters, brackets, blanks); texts with a line comment continued by a backslash, raw strings or an unterminated assembler block are outside the claim", reach=["parsed and checked"]),
  dict(harness="markup", tier="thorough", defs=["-DPROP=28", "-DEDITS"], budget_quick=1, budget_thorough=150, bounds="thorough only: " + S_ALL, reach=["parsed and checked"])])
CLIENT = ["src/client/create_srcml.cpp", "src/client/srcml_consume.cpp", "src/client/WriteQueue.cpp", "src/client/srcml_write.cpp", "src/client/srcml_input_src.cpp", "src/client/src_prefix.cpp", "src/client/src_archive.cpp"]
CL = ["create_srcml", "srcml_consume", "WriteQueue", "srcml_write", "srcml_input_srcml", "src_input_text", "src_input_file", "src_input_filelist", "src_input_libarchive", "src_input_filesystem", "TraceLog", "src_prefix", "srcml_input_src", "src_archive", "OpenFileLimiter", "SRCMLStatus", "srcml_options", "mkDir"]
prop("C24", "The client understands the names of its inputs and outputs in one way",
 "For every name on the command line, its protocol, resource, extension, compressions and archive formats are the parts it consists of, the same whichever function is asked; whether it is a document, a directory or a standard stream follows from them, and a format or compression that is accepted for a name is the one that is used.",
 ["inputs"], "all names",
 "Tests use a few ordinary names.",
 CLIENT[4:], [("a name is split at the first separator, extensions are taken off the end", "src/client/src_prefix.cpp, src/client/srcml_input_src.cpp"), ("extensions are looked up in tables", "src/client/src_archive.cpp")],
 [dict(harness="client", defs_quick=[], defs_thorough=["-DTIER=2"], budget_quick=60, budget_thorough=500, build=dict(client=["src_prefix", "srcml_input_src", "src_archive"], lib=False), bounds="6 protocols with up to 5 (thorough 6) arbitrary bytes; 6 names with 2 (thorough 3) extensions out of 11, for files that do not exist, exist or are a directory, and with an arbitrary byte anywhere; extensions with an arbitrary byte, and up to 4 arbitrary bytes", reach=["client"])],
 assumptions=["calls of libarchive, stat and the library are recorded, not made"])
prop("C25", "The client writes what the library makes of its inputs, in their order, under every schedule",
 "For every set of inputs (files, text, lists of files, archives, directories, the standard input, documents, or one unit of them) and options, and every way in which its threads take turns, the document written is the one the library makes of the same sources with the same settings in the order of the inputs; an input that cannot be used leaves out that input only; no thread or file is left.",
 ["inputs", "configurations", "schedules"], "all inputs, options and schedules",
 "Tests of the client are not run here; they use one schedule and a few inputs.",
 CLIENT, [("units are parsed by a pool of threads and written in the order of their position", "src/client/WriteQueue.cpp, src/client/ParseQueue.hpp, src/client/srcml_consume.cpp"), ("each kind of input has its own reader", "src/client/src_input_text.cpp, src_input_filelist.cpp, src_input_libarchive.cpp, src_input_filesystem.cpp, srcml_input_srcml.cpp")],
 [dict(harness="clientrun", defs_quick=["-DDEL=1"], defs_thorough=["-DDEL=2", "-DTIER=2"], budget_quick=100, budget_thorough=800, build=dict(client=CL, coro_native=True), bounds="up to 3 files out of 5 with an arbitrary byte; two files under every schedule with 1 preemption (and a spurious wake-up in the thorough tier); two documents with 1 (thorough 2) deviations anywhere from running to completion; 8 texts with up to 2 (thorough 3) arbitrary characters; 2 (thorough 3) options out of 13 with 3 inputs; lists of up to 2 (thorough 3) lines with an arbitrary byte; archives of up to 2 (thorough 3) entries; directories of up to 10 entries; the standard input; documents, and their parts; output to a file for each unit", reach=["written"])],
 assumptions=["libarchive, the pool of threads and boost::optional are stand-ins: the installed Boost does not compile with the client, the pool is a header of a submodule with the same interface", "inputs from the network, compressed documents, XPath, XSLT and RelaxNG are outside"])
prop("C34", "The client gives back the source of each unit, complete, under its name and in order",
 "For every document (or parsed source) the source that is extracted to the standard output, a file, a directory or an archive, compressed or not, is that of the chosen units as the library extracts it with the same line endings, encoding and revision, in their order and under their names; the exit status tells whether everything was written, nothing is written elsewhere, and nothing is left open, under every way in which the steps of the client take turns.",
 ["inputs", "configurations", "schedules"], "all documents, destinations and schedules",
 "Tests of the client are not run here; which step runs first is up to the scheduler.",
 ["src/client/create_src.cpp", "src/client/src_output_filesystem.cpp", "src/client/src_output_libarchive.cpp", "src/client/srcml_execute.cpp", "src/client/srcml_pipe.cpp", "src/client/compress_srcml.cpp", "src/client/srcml.cpp"], [("the destination decides between one unit, all of them with separators, files of a directory and entries of an archive", "src/client/create_src.cpp"), ("steps run in threads joined by pipes", "src/client/srcml_execute.cpp, src/client/srcml_pipe.cpp")],
 [dict(harness="extract", defs_quick=[], defs_thorough=["-DTIER=2"], budget_quick=60, budget_thorough=500, build=dict(client=CL, coro_native=True), bounds="4 documents (one unit, three units, units without names or languages, two revisions) with an arbitrary character, extracted to the standard output, a file, 3 formats of archives, 3 compressed ones, a compressed file or a directory, written in 5 ways, with 4 line endings, each unit or all, destinations that cannot be written; two documents into an archive; source to srcML to source, for 1 and 2 files; source to source and compression under every schedule with 1 (thorough 2) deviations from running to completion", reach=["extracted"])],
 assumptions=["libarchive and boost::optional are stand-ins, and a pipe is a queue without a limit of its size", "libcurl, XPath, XSLT and RelaxNG are outside"])
prop("C26", "The client shows what a document holds",
 "For every document, the encoding, url, and the language, filename, version, hash and timestamp of every unit (or of the unit asked for) that the client shows are those of the document in the order of the units, in lines of their own or filled into a format; the list and the number of units, the namespaces, the lines of code and their sums, and the prefix of a namespace are those of the document.",
 ["inputs", "configurations"], "all documents, all selections of values, all formats",
 "Tests of the client are not run here; values with special characters, missing ones, and combinations with the choice of a unit are not tried.",
 ["src/client/srcml_display_metadata.cpp", "src/client/srcml_pretty.cpp"], [("what is asked for is turned into a format, which is filled in for each unit", "src/client/srcml_display_metadata.cpp srcml_display_metadata, src/client/srcml_pretty.cpp parse_templates, display_template")],
 [dict(harness="meta", defs_quick=[], defs_thorough=["-DTIER=2"], budget_quick=60, budget_thorough=400, build=dict(client=["srcml_input_src", "src_prefix", "src_archive", "OpenFileLimiter", "SRCMLStatus", "srcml_options"], coro_native=True), bounds="a solitary unit or an archive of 1 or 2 (thorough 3) units, each attribute there or not in 12 (thorough 32) combinations, with a special (thorough any) character in the url or a filename; 23 (thorough all 127) selections of the 7 values, for all units or one; the count, both forms of information, the list, the prefixes of 3 namespaces; formats of up to 2 directives out of 14 and an arbitrary character, and with one of 4 headers, bodies and footers; read from a name, a descriptor or a stream", reach=["shown"])],
 assumptions=["each command on its own: the count, the list and the information read the document to its end"])
prop("C23", "Transformations give each unit's own results",
 "A sequence of XPath, XSLT and RelaxNG transformations of a unit gives the nodes, text, number or truth value that the queries select from that unit, as units with the attributes of the unit they come from, leaves the unit as it was, and is the same whatever was transformed before.",
 ["inputs", "configurations"], "all units and queries",
 "Tests use a few queries on small units.",
 ["src/libsrcml/srcml_transform.cpp", "src/libsrcml/xpathTransformation.cpp", "src/libsrcml/xsltTransformation.cpp", "src/libsrcml/relaxngTransformation.cpp"], [("queries are evaluated by libxml2 and libxslt on a tree of theirs, from which units are made", "src/libsrcml/srcml_transform.cpp srcml_unit_apply_transforms")],
 na="what is selected is decided by the XPath, XSLT and RelaxNG evaluators of libxml2 and libxslt, which are not part of the repository and not part of the encoded code: the models of libxml2 have no evaluator, and run natively they would make every symbolic character concrete, so that a check would only enumerate runs")
