#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that anchors are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
G = "src/gxfile.cpp"; H = "src/gxfile.hpp"; S = "src/gdlib/gmsstrm.cpp"; D = "src/gdlib/datastorage.hpp"
M = "src/gdlib/gmsdata.hpp"; T = "src/gdlib/strhash.hpp"; O = "src/gdlib/gmsobj.hpp"

p("C01", "What is written to a GDX file is exactly what is read back",
  "For any sequence of sets, parameters, variables, equations and scalars written to a file and closed successfully, opening the file delivers exactly those symbols in the order written, each with its dimension and type, and for each symbol exactly the records written: every key tuple once, in increasing order of the element numbers, with every value field unchanged. No record, symbol, or element is lost, invented, or attached to a different key, whatever the dimension (0..20), the number of records, the spread of the element numbers, or which components change between consecutive records.",
  ["inputs", "histories"], "every file content: any number of symbols, dimension 0..20, any set of key tuples, any values, any gaps between element numbers",
  "The tests write a handful of small symbols (mostly dimension 1-2, a few elements) and read them back; the record encoding switches on key ranges (byte/word/int), on key deltas, on value patterns and at buffer boundaries that they never reach.",
  [G, D, M, S], [("record delta encoding / decoding", "gxfile.cpp: DoWrite, DoRead"), ("collect + stable sort of keyed records", "datastorage.hpp: TLinkedData::Sort"), ("symbol, element and set text tables written at close", "gxfile.cpp: gdxClose / gdxOpenReadXX")],
  [("record stream", "per symbol sequence of (first changed dimension, keys, values)", "gxfile.cpp DoWrite")],
  ["gdxDataReadRaw/Str after reopening", "gdxSymbolInfo", "gdxSystemInfo"])

p("C02", "All read and write interfaces agree on the same data",
  "A symbol written through the raw, the mapped or the string interface (in any record order for the last two) gives the same stored symbol; and a stored symbol read through the raw, mapped, string, callback-based fast, filtered-fast or slice interface, or through the universe and domain-element queries, gives the same records with the same values. The reported index of the first changed dimension is the true one and record counts announced at the start of a read equal the number of records delivered.",
  ["inputs", "histories"], "every symbol content, every permutation of the write order, and every pair of write and read interfaces, in any order and any number of times on one open file",
  "Tests exercise each interface on its own small example; they never compare the interfaces with each other on the same arbitrary data or in the same session.",
  [G, H, D], [("mapping between raw, user and string keys", "gxfile.cpp: gdxDataWriteStr/Map/Raw, gdxDataReadStr/Map/Raw"), ("fast readers", "gxfile.cpp: gdxDataReadRawFast, gdxDataReadRawFastEx, gdxDataReadRawFastFilt"), ("slices", "gxfile.cpp: gdxDataReadSliceStart, gdxDataReadSlice, gdxDataSliceUELS")],
  [], ["return values and outputs of the gdxDataRead* family"])

p("C03", "Compression and internal buffering never change the content",
  "A file written with compression or without delivers identical symbols, records, values, element names, texts and metadata, regardless of where symbol sections, strings and values fall relative to internal buffer boundaries. Reading part of a symbol and then another one, in any order, delivers the same data as reading the file front to back.",
  ["inputs", "configurations", "histories"], "every content and size, every alignment of items against the internal buffers, every symbol access order, compression on and off",
  "Tests use files far smaller than one internal buffer; block boundaries, multi-block records and random access in compressed files are hardly reached.",
  [S, "src/gdlib/gmsstrm.hpp", G], [("block framed buffered stream", "gmsstrm.cpp: TBufferedFileStream, TMiBufferedStreamDelphi"), ("zlib blocks", "gmsstrm.cpp: compress/decompress via zlib"), ("choice of compression", "gxfile.cpp: gdxOpenWriteEx")],
  [], ["gdxDataRead* on compressed and uncompressed files", "gdxGetMemoryUsed"])

p("C04", "The on-disk format is what the specification says, in both directions",
  "Every file the library produces can be decoded by an independent decoder of the published layout (file header, section index, record stream, symbol, text, element, acronym and domain tables), giving exactly the written content; and every file laid out according to it, including files of the other byte order, older supported versions, and legal encodings this writer would not choose, is read with exactly the encoded content. Files whose header or markers are not those of a GDX file are rejected with an error and without being treated as data.",
  ["inputs", "configurations"], "every content, both byte orders, all supported file versions, all legal choices of key width and value codes",
  "Round trip tests cannot see a change that alters writer and reader consistently, and tests contain no foreign-endian file and hardly any old file.",
  [G, S], [("header and type-size checks", "gmsstrm.cpp: TMiBufferedStreamDelphi ctor, determine_byte_order"), ("section markers and index", "gxfile.cpp: gdxOpenReadXX, gdxClose"), ("record stream", "gxfile.cpp: DoRead/DoWrite")],
  [], ["bytes of the produced file", "content read from synthesised files"])

p("C05", "Duplicate and out-of-order records are caught, the rest is kept",
  "When several records with the same key tuple are written to a symbol of dimension one or more, or raw records arrive out of order, the offending records are not stored, each is counted and retrievable as an error record (up to the documented limit) with its keys and values, and exactly the first record per key (and the in-order ones) are stored. Correct records never produce an error, and the stored symbol is strictly sorted without duplicates.",
  ["inputs", "histories"], "every sequence of record writes through every write interface",
  "Tests write one or two duplicates; the interplay of sorting, duplicate detection, the error list limit and later records is not sampled.",
  [G, D, M], [("key comparison against last written record", "gxfile.cpp: DoWrite"), ("stable sort", "datastorage.hpp: TLinkedData::Sort"), ("error list", "gxfile.cpp: AddToErrorList")],
  [("ErrorList", "bounded list of rejected records", "gxfile.hpp")], ["gdxDataErrorCount", "gdxDataErrorRecord", "gdxDataErrorRecordX", "gdxDataWriteDone"])

p("C06", "Domain-checked symbols only contain elements of their domain sets",
  "When a domain other than the universe is set for a position of a symbol being written and the domain set was written earlier in the same writing session (domain information kept, not switched off), a record is stored only if the element at that position is a member of that set; other records are rejected, counted and reported with the offending positions marked. Records that satisfy the domains are never rejected, positions with universe or relaxed domains are never checked, and unknown or unusable domains are refused with the documented error.",
  ["inputs", "histories"], "every combination of domain sets, aliases, dimension, position and record; any order of symbol creation",
  "Tests check one domain violation on a tiny set; positions, aliases, self-domains, growing element tables and multi-position violations are not quantified over.",
  [G, H, O], [("membership bitmap per 1-dim set", "gxfile.cpp: DoWrite (SSetBitMap)"), ("domain resolution", "gxfile.cpp: gdxSymbolSetDomain"), ("violation reporting", "gxfile.cpp: AddToErrorListDomErrs, DomainErrors")],
  [], ["gdxSymbolSetDomain", "gdxDataErrorCount", "gdxDataErrorRecordX", "records read back"])

p("C07", "Calls are accepted only in the right state and a rejected call changes nothing",
  "Every library call is accepted exactly in the states in which the documented protocol allows it (nothing open, idle reading or writing, inside a symbol or element-registration block of a given kind). A call made in any other state is rejected with an error and leaves the open file, the data written so far, and the position of a running read or write unaffected, so that the interrupted activity can be finished as if the call had not been made.",
  ["histories", "programs"], "every sequence of API calls, in particular every call in every state",
  "Tests call functions in the order the documentation suggests; the product of calls and states is never enumerated.",
  [G, H], [("mode checks", "gxfile.cpp: MajorCheckMode/CheckMode"), ("mode transitions", "gxfile.cpp: fmode assignments")],
  [("fmode", "protocol state", "gxfile.hpp")], ["return value of every call", "gdxGetLastError", "content of the file afterwards"])

p("C08", "The element table is a case-insensitive numbering without gaps",
  "Unique elements get consecutive numbers from 1 in the order of first registration, a name differing only in case or trailing blanks is the same element and keeps its first spelling, and lookups by number and by name are mutually inverse for any number of elements. Invalid element names are refused; renaming an element changes the name and nothing else, is refused if the new name is taken, and survives in the file and in all later lookups.",
  ["inputs", "histories"], "every sequence of registrations, lookups, renames and writes; any table size",
  "Tests register a few elements; growth and rehashing of the table, near-collisions, and rename followed by lookup are not covered over all histories.",
  [G, T], [("hash table with rehash", "strhash.hpp: TXStrHashList"), ("rename", "strhash.hpp RenameEntry, gxfile.cpp gdxRenameUEL"), ("name validation", "gxfile.cpp / utils.cpp: GoodUELString")],
  [], ["gdxUELRegisterRaw/Str/Map", "gdxUMUelGet", "gdxUMFindUEL", "gdxSymbolGetSpec...", "gdxRenameUEL", "gdxSystemInfo"])

p("C09", "User element mapping is consistent and survives as documented",
  "Within one open file the association between user numbers and elements behaves as a partial function in each direction: registering reports the number under which the element is known, querying by user number or name returns what was registered, and conflicting registrations are refused without altering the existing mapping. The unmapped elements, the highest mapped number and the element counts reported always agree with the registrations made.",
  ["histories", "inputs"], "every sequence of raw, mapped and string registrations and queries, in read and write mode",
  "Tests register one or two mapped elements; mixed registration styles, conflicts and re-registration are not enumerated.",
  [G, H], [("user map", "gxfile.hpp: TUELTable, TIntegerMapping"), ("registration", "gxfile.cpp: gdxUELRegisterMap, gdxUELRegisterStr, TUELTable::NewUsrUel / AddUsrNew / AddUsrIndxNew")],
  [("UsrUel2Ent", "user number to element", "gxfile.hpp TUELTable")], ["gdxUELRegisterMap", "gdxUELRegisterStr", "gdxUMUelInfo", "gdxGetUEL", "gdxUMFindUEL"])

p("C10", "Mapped and filtered reads deliver exactly the admitted records",
  "A filtered or strict read delivers, in increasing order of user numbers, exactly the stored records all of whose elements are admitted by the filter or already mapped, each with its user numbers and values; an expanding read delivers all records and gives every element not yet mapped a fresh user number above all existing ones. Records that are not delivered are reported as errors with the failing positions, and the announced count is never smaller than the number delivered.",
  ["inputs", "histories"], "every symbol content, every element mapping (monotone or not), every filter and action per position, every interleaving with registrations",
  "Tests use identity mappings and one filter; non-monotone mappings (which take a different code path), per-position mixtures and repeated reads are not sampled.",
  [G, H, D], [("filtered/mapped read", "gxfile.cpp: PrepareSymbolRead, gdxDataReadMapStart, gdxDataReadMap, gdxDataReadFilteredStart"), ("filters", "gxfile.cpp: gdxFilterRegisterStart/Register/Done, gdxFilterExists")],
  [], ["gdxDataReadMap", "gdxDataReadFilteredStart", "gdxDataErrorRecordX", "gdxUMUelInfo"])

p("C11", "Numeric and special values survive bit-exactly",
  "Every double is stored and read back with identical bits, except that the values registered as special values are translated to the reader's special values of the same kind, negative zero reads as zero and infinities and not-a-numbers read as the corresponding special values. Special value settings can be changed and reset, never confuse two kinds, and never turn an ordinary number into a special one or the reverse.",
  ["inputs", "configurations"], "every 64-bit pattern, every value field, every setting of writer and reader special values",
  "Tests check the five special values and a few numbers; the value classification by bit pattern must hold for all doubles and all custom special values.",
  [G, "src/gdlib/dblutil.cpp"], [("value classification", "gxfile.cpp: DoWrite / GetMapping of values via intlValueMapI64"), ("value decoding", "gxfile.cpp: DoRead / readIntlValueMapDbl"), ("special value settings", "gxfile.cpp: gdxSetSpecialValues, gdxSetReadSpecialValues, gdxResetSpecialValues, gdxMapValue")],
  [], ["gdxDataReadRaw values", "gdxGetSpecialValues", "gdxMapValue"])

p("C12", "Acronyms keep their identity across files",
  "A value that denotes an acronym reads back as the same acronym: same name, text and, after the reader's mapping, the index the reader assigned to it, with automatically assigned indices taken consecutively from the number the reader requested. No two acronyms share a name or an index, conflicting definitions are refused with the documented error, and acronym handling never alters ordinary or special values.",
  ["inputs", "histories"], "every set of acronyms, every mapping configuration and every sequence of acronym calls before, between and during reads",
  "Tests define one or two acronyms; remapping, auto numbering, duplicate names or indices, and mapping to NA are only sampled once.",
  [G, H], [("acronym list", "gxfile.hpp/cpp: TAcronymList"), ("remap on read", "gxfile.cpp: AcronymRemap"), ("API", "gxfile.cpp: gdxAcronymAdd, gdxAcronymSetInfo, gdxAcronymGetInfo, gdxAcronymGetMapping, gdxAcronymNextNr, gdxAcronymName/Index/Value")],
  [], ["gdxAcronym*", "values read"])

p("C13", "Every set element keeps its own explanatory text",
  "The text attached to each set element (up to 255 characters, quotes normalised as documented) is delivered for exactly the elements it was written for, for any number of distinct or shared texts, through every interface and after closing and reopening; a node number attached to a text is reported with that text for as long as the file stays open. Text numbers returned by registration are stable, equal texts share a number, and number zero is the empty text.",
  ["inputs", "histories"], "every assignment of texts to elements, any number of texts, any order of registration",
  "Tests attach a few texts; the string pool growth, sharing and numbering are not quantified.",
  [G, T], [("text pool", "gxfile.cpp: gdxAddSetText, gdxSetTextNodeNr, SetTextList"), ("lookup", "gxfile.cpp: gdxGetElemText")],
  [], ["gdxGetElemText", "gdxAddSetText", "gdxSetTextNodeNr", "gdxSymbMaxLength..."])

p("C14", "Symbol metadata is unique, consistent and preserved",
  "Symbol names are unique ignoring case and are found by number and by name; names, dimension, type, subtype, explanatory text, aliases, comments, and regular and relaxed domain names are reported exactly as defined, both in the writing session and after reopening. Invalid definitions (bad identifier, duplicate name, dimension or type out of range, alias of something that is not a set) are refused with the documented error and leave no trace in the file.",
  ["inputs", "histories"], "every sequence of symbol definitions, aliases, comments, and domain settings",
  "Tests define a few well-formed symbols; combinations of invalid definitions, case variants, alias chains and domain kinds are not enumerated.",
  [G, H, "src/gdlib/utils.cpp"], [("symbol table", "gxfile.cpp: PrepareSymbolWrite, IsGoodNewSymbol, gdxFindSymbol"), ("aliases", "gxfile.cpp: gdxAddAlias"), ("domains", "gxfile.cpp: gdxSymbolSetDomain(X), gdxSymbolGetDomain(X)"), ("comments", "gxfile.cpp: gdxSymbolAddComment, gdxSymbolGetComment")],
  [], ["gdxSymbolInfo", "gdxSymbolInfoX", "gdxSymbolGetDomain", "gdxSymbolGetDomainX", "gdxSymbolGetComment", "gdxFindSymbol"])

p("C15", "Appending keeps everything that was in the file",
  "Reopening a closed file for appending and adding symbols, elements, texts, acronyms, aliases or comments gives, after closing, a file containing everything it contained before, unchanged and in the same order, followed by what was added. Repeated appends, appends that add nothing, and appends to compressed files are included, and files that cannot be appended to are refused and left unchanged.",
  ["histories", "inputs"], "every initial content and every series of append sessions",
  "Tests append one symbol to one small file.",
  [G], [("append open", "gxfile.cpp: gdxOpenAppend"), ("rewriting of the index at close", "gxfile.cpp: gdxClose, NextWritePosition")],
  [], ["content read back after each session"])

p("C16", "An incompletely written file is never mistaken for a complete one",
  "If writing a new file stops at any point before a successful close (crash between any two system writes, missing final part, unflushed tail), opening that file fails with an error code: the reader never reports success and then presents partial or wrong content. The same holds for a completed file cut off at any byte, unless everything the reader then delivers is still correct.",
  ["crash_points", "inputs"], "every prefix of the sequence of system writes of every writing session, and every truncation length of a completed file",
  "Tests never stop the writer between two writes nor cut files.",
  [G, S], [("index reserved first and begin-of-index mark written last", "gxfile.cpp: gdxOpenWriteEx, gdxClose, MARK_BOI"), ("markers verified at open", "gxfile.cpp: gdxOpenReadXX")],
  [], ["gdxOpenRead return value and error number", "file bytes after each write(2)"])

p("C17", "I/O failures while writing are reported, not swallowed",
  "If any system write during a writing session fails or is only partially performed (disk full, I/O error), then some call up to and including close reports an error; success at close means that the file on disk is complete and readable. Opening files that do not exist, are directories or are not permitted fails with an error code and leaves the object reusable.",
  ["fault_sequences", "inputs"], "a failure or short transfer at every single system write, persistent or transient, of every writing session, compressed or not",
  "Tests never inject an I/O failure.",
  [G, S, "src/rtl/p3utils.cpp"], [("stream error latch", "gmsstrm.cpp: TXFileStream::SetLastIOResult, Write"), ("close reports stream error", "gxfile.cpp: gdxClose")],
  [("FLastIOResult", "first stream error", "gmsstrm.hpp")], ["gdxClose return value", "gdxGetLastError", "gdxErrorCount"])

p("C18", "Errors are latched, counted and retrievable",
  "The first error since the last query is what the last-error query returns, querying clears it, the error count equals the number of errors raised since the file was opened, and every error number has a text. A call that succeeds raises no error, and a call that fails never does so silently.",
  ["histories"], "every sequence of failing and succeeding calls and error queries",
  "Tests look at individual error codes right after the failing call; latching and counting across sequences is not sampled.",
  [G], [("error latch", "gxfile.cpp: SetError, ReportError, gdxGetLastError, gdxErrorCount, gdxErrorStr")],
  [], ["gdxGetLastError", "gdxErrorCount", "gdxErrorStr"])

p("C19", "gdxdiff reports a difference exactly when there is one",
  "For any two files, gdxdiff reports no differences if and only if, under the selected options and tolerances, both contain the same symbols with the same records and values; and the difference file lists exactly the differing records (inserted, deleted, changed) with the values of both sides. Exit codes and the symbol summary agree with the difference file.",
  ["inputs", "configurations"], "every pair of files and every combination of options (tolerances, field selection, id, skipid, domain and default comparison, differences only)",
  "The tool tests compare a few fixed file pairs.",
  ["src/tools/gdxdiff/gdxdiff.cpp", "src/tools/library/common.cpp", "src/tools/library/cmdpar.cpp"], [("record comparison", "gdxdiff.cpp: CompareSy, CheckParDifference/CheckSetDifference"), ("tolerance test", "gdxdiff.cpp: DoublesEqual")],
  [], ["exit code", "stdout summary", "difference GDX file"])

p("C20", "gdxmerge unites all inputs without losing or mixing data",
  "Merging files produces a file in which every symbol carries one more leading dimension naming the input file, and whose records with a given leading label are exactly the records of that symbol in that input, with values, set texts and explanatory text preserved. Symbols that cannot be merged (type or dimension conflict, dimension limit) are reported and skipped without affecting the others, whether or not the large-symbol mode is used.",
  ["inputs", "configurations"], "every list of input files and every id/exclude/big selection",
  "The tool tests merge a few fixed files.",
  ["src/tools/gdxmerge/gdxmerge.cpp", "src/tools/library/cmdpar.cpp"], [("merge per symbol", "gdxmerge.cpp: FillFiles/WriteNormalSymbols/CollectBigOne")],
  [], ["merged GDX file", "exit code", "stdout"])

p("C21", "gdxdump prints exactly the content of the file",
  "The text gdxdump produces contains every selected symbol with exactly its records, labels, explanatory texts, field values and default handling, in GAMS or CSV form, such that reading the text back gives the stored data; options (symbol selection, header suppression, delimiters, decimal separators, filtering of defaults, CSV layout) change only what they say they change. Labels needing quotes are quoted so that the text is unambiguous.",
  ["inputs", "configurations"], "every file content and every option combination",
  "The tool tests compare dumps of a few fixed files with stored text.",
  ["src/tools/gdxdump/gdxdump.cpp", "src/tools/library/common.cpp"], [("symbol writers", "gdxdump.cpp: WriteSymbol, WriteSymbolCSV, WriteQuotedCommon, WriteUEL")],
  [], ["stdout", "exit code"])

p("C22", "Objects are independent and reusable",
  "Several GDX objects used in any interleaving of calls, on the same or different files, also at the same time in different threads (each object by one thread), behave as if each were used alone; an object closed (or whose open failed) can be reused and then behaves like a freshly created one, apart from documented sticky settings. No setting, element, error or special value leaks between objects or from one file to the next.",
  ["histories", "schedules"], "every interleaving of calls on several objects and every sequence of open/close on one object",
  "Tests use one object at a time for one file.",
  [G, H], [("reset on open/close", "gxfile.cpp: gdxOpenReadXX, gdxOpenWriteEx, gdxClose"), ("static buffers inside API functions", "gxfile.cpp: gdxDataWriteStr, gdxUELRegisterStr, ...")],
  [], ["all API outputs"])

p("C23", "Summary queries agree with the stored data",
  "The counts and summaries the library reports (number of symbols and elements, records per symbol, dimension and type, longest label overall and per position, longest symbol name, longest text, distinct elements per domain position and their number, values present) are exactly what a full scan of the data yields. Asking for them does not disturb later reads.",
  ["inputs", "histories"], "every file content and every order of queries and reads",
  "Tests call each query once on one small file.",
  [G], [("queries", "gxfile.cpp: gdxSystemInfo, gdxSymbolInfo(X), gdxSymbMaxLength..., gdxUELMaxLength, gdxSymbolDim, gdxGetDomainElements")],
  [], ["gdxSystemInfo", "gdxUELMaxLength", "gdxSymbIndxMaxLength", "gdxGetDomainElements"])

p("C24", "The exported C interface behaves exactly like the C++ object",
  "Every function of the shared library's C interface, and the C++ wrapper class on top of it, has the same effect, return value and outputs as the corresponding operation of the C++ object, for every argument and state. Strings and arrays cross the interface unchanged within the documented size limits.",
  ["histories", "inputs"], "every sequence of calls made through either interface",
  "The wrapper tests repeat the same few examples; argument order, truncation or dropped results on other calls would pass.",
  ["generated/gdxcclib.cpp", "generated/gdxcppwrap.hpp", "generated/gdxcc.c"], [("forwarding functions", "generated/gdxcclib.cpp"), ("dynamic loading wrapper", "generated/gdxcc.c, gdxcppwrap.hpp")],
  [], ["outputs of the same script through both interfaces"])

p("C25", "Looking does not change anything",
  "Informational calls (symbol, element, text, acronym, special-value, error and file queries, memory use, library version) and tracing at any level have no effect: made at any point of any session, whatever is being read, written or registered, they leave the data, the running activity, the settings and the results of all other calls as they would have been without them, apart from the error a rejected query itself raises. Their own answers depend only on the current content.",
  ["histories"], "every state of a session and every query made in it, with tracing on or off",
  "Tests query after the fact, in the idle state, and never with tracing switched on.",
  [G], [("queries", "gxfile.cpp: gdxSymbolInfo(X), gdxSymbolGetDomain(X), gdxSymbolGetComment, gdxFindSymbol, gdxUMUelGet, gdxUMFindUEL, gdxGetElemText, gdxAcronymGetInfo, gdxAcronymGetMapping, gdxMapValue, gdxGetMemoryUsed"), ("tracing", "gxfile.cpp: gdxSetTraceLevel, WriteTrace, CheckMode, MajorCheckMode")],
  [], ["all API outputs with and without interspersed queries"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
