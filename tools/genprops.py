#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property; edit here."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

I = ["inputs"]
p("C01", "No input makes an index, slice bound or allocation size go out of range",
  "Parsing any byte sequence as a PDF, with any password, never ends in an index-out-of-range, slice-bounds, negative or oversized allocation, integer division by zero, or buffer-truncation crash, and never makes an RC4 cipher with a key whose length it refuses where the refusal would go unnoticed. (Indexes into the output buffer a loop is still appending to, as in the neighbour lookups of the PNG predictors, are judged for being negative only.)",
  I, "all documents (headers, xref data, filter parameters, predictors, cmaps, encryption dictionaries) and passwords",
  "The tests feed three dozen small documents; each crash needs a particular length, sign or overflow of a document-controlled number.",
  ["pdf/*.go"], [("index and bound guards", "pdf/array.go, pdf/filters.go, pdf/utility.go, pdf/parser.go, pdf/encryption.go, pdf/font.go")])
p("C02", "No input or way of use dereferences nil or fails a type assertion",
  "The library never crashes on a nil pointer, a nil interface, a write to a nil map, a failed unchecked type assertion or a comparison of interface values that can not be compared, whatever the document contains and whether or not the command line program has set anything up first: a parser made without an output works as well as one made with an output. (Callers pass non-nil values for everything else.)",
  ["inputs", "configurations"], "all documents; use as a library or through the command line program; output attached or not",
  "Tests run with well-typed documents and set the verbosity flag; a missing key or an unexpected object type takes a path they never execute.",
  ["pdf/*.go", "main.go"], [("comma-ok lookups and assertions", "pdf/dictionary.go, pdf/array.go, pdf/parser.go"), ("nil checks on optional output and flags", "pdf/parser.go log_error, pdf/output.go, pdf/logger.go")])
p("C03", "Recursion is bounded on every document",
  "No document can make the parser or the extractor recurse without bound: cyclic references, cyclic or self-referencing page trees, name trees and cross-reference chains are cut, and object nesting is limited.",
  I, "all documents, including every cyclic graph of references and any nesting depth",
  "Two loop tests exist (reference loop, xref loop); other cycles and depths are not sampled.",
  ["pdf/parser.go", "pdf/dictionary.go", "pdf/reference.go", "pdf/object.go"],
  [("visited sets", "pdf/dictionary.go ResolveKids/getNameTreeMap, pdf/reference.go resolve, pdf/parser.go loadXref"), ("active object guard and nesting limit", "pdf/parser.go GetObject, ReadObject")])
p("C04", "Every loop makes progress or is bounded by the data",
  "Every loop in the parser is bounded by a constant or by the size of data already in memory, or consumes at least one input byte per iteration and stops at the end of input; a count or range taken from the document alone never determines how long a loop runs.",
  I, "all documents",
  "A non-terminating case needs a specific malformed token, an empty entry width or a huge count; tests time out only on the ones they contain.",
  ["pdf/*.go"], [("end-of-input exits", "pdf/parser.go"), ("caps on document counts", "pdf/font.go, pdf/parser.go")])
p("C05", "Typed lookups resolve references and report presence by exact type",
  "A typed lookup in an array or dictionary succeeds exactly when the entry exists and its value, after following an indirect reference to the referenced object, has the requested type, and then yields that value; otherwise it reports failure with an empty value. Stream lookups succeed exactly when the entry is a reference to an object that has a stream.",
  I, "all keys, indexes and entry types, direct or indirect",
  "Tests use a handful of key and type combinations and only through whole-document parses.",
  ["pdf/array.go", "pdf/dictionary.go", "pdf/reference.go"], [("GetX accessors", "pdf/array.go, pdf/dictionary.go"), ("reference resolution", "pdf/reference.go")])
p("C06", "Files are written only inside the output directory under safe names",
  "The only files the tool creates are, directly inside the given output directory, the seven fixed output files and dumped files whose names are the hexadecimal MD5 of their content; no string taken from the document ever becomes part of a path.",
  I, "all documents, in particular all embedded file names",
  "No test extracts an embedded file or inspects the file system.",
  ["pdf/output.go", "pdf/file.go", "pdf/pdf.go"], [("DumpFile naming", "pdf/output.go"), ("NewOutput", "pdf/output.go")], ["output directory"])
p("C07", "No execution, network access or input modification",
  "Processing a document never starts a process, opens a network connection, changes the environment, or deletes or modifies any file other than the output directory and files created in it; the input file is only ever opened for reading.",
  I, "all documents and all call paths from the library's entry points and the command line program",
  "Tests look at returned values only; a side effect on an untested path is invisible to them.",
  ["pdf/*.go", "main.go"], [("effects used", "pdf/output.go, pdf/pdf.go, main.go")])
p("C08", "An existing output directory is destroyed only on request and never needlessly",
  "The command line program touches an existing output directory only when -f was given, and a parse that cannot open its input file returns without removing or creating anything. The only path ever removed is the output directory given by the caller.",
  ["inputs", "configurations", "fault_sequences"], "all argument combinations, existing or missing input and output paths",
  "The command line program and the output setup have no tests.",
  ["main.go", "pdf/pdf.go", "pdf/output.go"], [("exists check", "main.go main"), ("order of open and NewOutput", "pdf/pdf.go Parse")])
p("C09", "Every opened handle is closed on every path",
  "The input file, all seven output files and every decompressor opened while parsing are closed again on every path, including error returns and a partially failed output setup.",
  ["inputs", "fault_sequences"], "all return paths of the operations that open handles",
  "Leaks do not change test results.",
  ["pdf/pdf.go", "pdf/output.go", "pdf/filters.go"], [("deferred closes", "pdf/pdf.go, pdf/filters.go"), ("Output.Close", "pdf/output.go")])
p("C10", "Encrypted documents open only with a verified password and supported scheme",
  "Loading an encrypted document succeeds only if the Standard handler with V 1, 2 or 4 and R 2 to 4 is declared, the required O, U, P and ID entries are present, and the key derived from the password reproduces the stored U check value (all of it for R2, its first 16 bytes for R3 and R4). Anything else makes the load return the matching error: unsupported scheme, missing information or incorrect password.",
  I, "all encryption dictionaries and passwords",
  "One encrypted sample with one password is tested; no negative case is.",
  ["pdf/encryption.go", "pdf/parser.go"], [("validation and key check", "pdf/encryption.go Init"), ("propagation", "pdf/parser.go Load, SetPassword; pdf/pdf.go Parse")])
p("C11", "Every string and stream is decrypted exactly once with its own object's key",
  "Each string and stream read as part of an encrypted indirect object is decrypted exactly once before filters are applied, using the key of the object that contains it (object number and generation), at every nesting depth and on every exit path of the readers; nothing is decrypted in content streams, cmaps and other unencrypted data.",
  I, "all nestings of strings and streams in objects, all termination paths of string and stream readers",
  "One encrypted sample exercises one string and a few streams; unterminated and nested cases are not covered.",
  ["pdf/parser.go", "pdf/encryption.go"], [("decryptor parameter", "pdf/parser.go ReadObject/ReadArray/ReadDictionary/ReadString/ReadHexString/ReadStream"), ("GetObject", "pdf/parser.go")])
p("C12", "The encryption dictionary and cross-reference streams are never decrypted",
  "Objects that hold the encryption dictionary or a cross-reference stream are always read in clear, whichever way the object was found (cross-reference data or scanning the file); all other objects of an encrypted document are decrypted.",
  I, "all documents, including repaired and chained cross-reference data",
  "The encrypted sample has a direct lookup only; chains, repair and encryption are not combined.",
  ["pdf/parser.go", "pdf/xref.go"], [("IsEncrypted flag", "pdf/parser.go Load, findObjects, loadXref, loadXrefStream, GetObject; pdf/xref.go")])
p("C13", "The crypt filter for each string, stream and embedded file is the declared one",
  "Strings use the crypt filter named by StrF, streams the one named by StmF, embedded file streams the one named by EEF and otherwise the stream filter, and a stream with a leading Crypt filter the one it names (Identity if none); that Crypt entry is then not applied as a decoding filter. Identity and None leave data unchanged, V2 selects RC4 and AESV2 selects AES, and before revision 4 everything uses RC4.",
  I, "all CF, StmF, StrF, EEF and Crypt combinations",
  "The tested sample uses a single filter for everything.",
  ["pdf/encryption.go", "pdf/parser.go"], [("filter selection", "pdf/encryption.go Init"), ("per-stream choice", "pdf/parser.go GetObject")])
p("C14", "Keys are derived by the standard's hash recipe",
  "The file key is the MD5, truncated to the key length, of the padded password, O, P, the first ID and (R4 with unencrypted metadata) four FF bytes in that order, re-hashed 50 times for R3 and later; each object's key is the first min(n+5,16) bytes of the MD5 of the file key, the low three bytes of the object number, the low two bytes of the generation and, for AES only, the salt sAlT. The password check value is computed from the padding string (R2) or the MD5 of the padding string and ID with 20 RC4 passes (R3 and later).",
  I, "all passwords, key lengths, object numbers and generations",
  "One sample has small object numbers, generation zero and one key length.",
  ["pdf/encryption.go"], [("computeEncryptionKey", "pdf/encryption.go"), ("NewDecryptor", "pdf/encryption.go"), ("U check", "pdf/encryption.go Init")])
p("C15", "Stream filters are chosen by name and applied in declared order",
  "The decoded stream is the raw stream passed through the declared filters in declared order, each with the parameters at its own position, a single name or dictionary counting as a one-element list; each supported filter name selects its decoder, and unknown filters and undecodable data pass the data through unchanged.",
  I, "all filter chains and parameter arrays",
  "Tests cover each decoder once and one two-filter chain without per-filter parameters.",
  ["pdf/filters.go", "pdf/parser.go"], [("dispatch", "pdf/filters.go DecodeStream"), ("chain", "pdf/parser.go ReadStream, GetObject")])
p("C16", "PNG and TIFF predictors are reversed with the right neighbours",
  "For predictors 10 to 15 each row is decoded by the method its own tag byte names (none, sub, up, average, Paeth), combining the raw byte with exactly the left, upper and upper-left decoded bytes that method uses, with Paeth choosing in the order left, up, upper-left; predictor 2 adds the value one pixel to the left within the row, and predictor 1 and unknown predictors return the data unchanged.",
  I, "all rows, columns, tags, and colour and bit-depth parameters",
  "The xref stream tests exercise one predictor method.",
  ["pdf/filters.go", "pdf/utility.go"], [("ReversePredictor", "pdf/filters.go")])
p("C17", "The newest cross-reference data wins",
  "When several cross-reference sections define the same object or trailer key, the value from the most recent section wins: a section overrides everything reached through its Prev entry, sections found by scanning are applied in file order, and the section named by startxref is applied last. Every Prev chain is followed, and each section in a chain is loaded at most once.",
  ["inputs", "histories"], "all update histories and Prev chains",
  "Two chain tests with a fixed two-section history.",
  ["pdf/parser.go"], [("ordering and merge", "pdf/parser.go Load, loadXref, loadXrefTable, loadXrefStream")])
p("C18", "Cross-reference repair fixes wrong and missing entries and keeps valid ones",
  "Every object header in the file is found by scanning (for a number that occurs several times the last one counts). After loading, every object found has an entry; an entry is redirected to the scanned position exactly when no header of that object is found at its recorded offset, and entries that are right stay untouched.",
  I, "all mixtures of valid, stale, free and missing entries",
  "One test with one wrong entry.",
  ["pdf/parser.go"], [("repair loop", "pdf/parser.go Load"), ("findObjects", "pdf/parser.go")])
p("C19", "Resolving a reference or looking ahead never loses the reading position",
  "Following a reference leaves the parser at the byte it was at before; reading a number that turns out not to start a reference leaves the position directly after the number; every repositioning discards buffered bytes, and the reported position accounts for bytes read ahead but not consumed.",
  ["inputs", "histories"], "all positions, buffer fill levels and nested resolutions",
  "Positions in the tests fall inside one buffer fill.",
  ["pdf/reference.go", "pdf/parser.go"], [("Resolve/ResolveStream", "pdf/reference.go"), ("Seek/CurrentOffset/ReadObject", "pdf/parser.go")])
p("C20", "Results do not depend on how the input is chunked",
  "Every multi-byte read used by the parser is a full read: how many bytes one underlying read happens to return, or where a buffer boundary falls, never changes what is parsed.",
  ["inputs", "schedules"], "all placements of tokens relative to buffer boundaries and all short-read behaviours of the reader",
  "All test documents are far smaller than the read buffer.",
  ["pdf/parser.go", "pdf/utility.go"], [("io.ReadFull", "pdf/parser.go, pdf/utility.go")])
p("C21", "Every format abnormality is logged, and only then",
  "Whenever a name, string, hex string, array, dictionary or stream of the document is read, each abnormality the documentation lists is written to the error log exactly when it occurs in it: unterminated arrays, dictionaries, strings, hex strings, streams, escapes and octals, invalid name escapes and hex characters, octals above 377, escapes of printable characters that needed none, dictionary keys that are not names and missing dictionary values. Well-formed constructs log nothing.",
  I, "all malformed and well-formed tokens",
  "The tests parse malformed tokens with no output attached and never look at the log.",
  ["pdf/parser.go", "pdf/errors.go", "pdf/output.go"], [("log_error calls", "pdf/parser.go"), ("Output.Error", "pdf/output.go")], ["errors.txt"])
p("C22", "Tokens end and are decoded exactly as the PDF syntax says",
  "Names and keywords end exactly at the next whitespace or delimiter, which is left unread; names decode #xx escapes; literal strings keep balanced parentheses, decode the standard escapes, octal codes of one to three digits (only the first two digits of a code above 377) and line continuations, and drop the backslash of any other escape; hex strings ignore whitespace, comments and invalid characters and pad a missing last digit with 0; comments run to the end of line and count as whitespace. Input that ends inside a token ends the token with what was read. What an invalid # escape stands for is left open.",
  I, "all byte sequences",
  "Each token function has one or two sample inputs.",
  ["pdf/parser.go"], [("ReadName/ReadKeyword/ReadString/ReadHexString/consumeWhitespace/consumeComment", "pdf/parser.go")])
p("C23", "The kind of the next object is decided by its leading bytes",
  "Reading an object dispatches on its first bytes: / name, [ array, ( string, << dictionary, single < hex string, digit, sign or dot number or reference, anything else keyword; closing delimiters end the enclosing construct only, and a number is a reference exactly when followed by an integer and the keyword R. Arrays hold every object up to their closing bracket in order, dictionaries pair every name with the object that follows (a later entry for the same name wins), and a command is the first keyword with all objects before it as operands.",
  I, "all leading bytes and contexts",
  "Only well-formed samples of most kinds.",
  ["pdf/parser.go"], [("ReadObject", "pdf/parser.go")])
p("C24", "Every launch action's command is recorded",
  "The actions in A, OpenAction and every entry of AA of a visited dictionary are all handled. For a Launch action the target named by F (string or file specification) or by the platform dictionary Win is written to the command log, with its parameters P when present; a file specification with parameters is recorded as a command; external file targets are also listed in the file manifest with the all-zero hash.",
  I, "all shapes of action and file specification dictionaries",
  "No test covers extraction.",
  ["pdf/action.go", "pdf/file.go"], [("Action.Extract, File.Extract", "pdf/action.go, pdf/file.go")], ["commands.txt", "files.txt"])
p("C25", "Script and URL content reaches its own output file",
  "For every dictionary visited, JS strings and JS streams are written to the script file, and URI strings, URI base entries, URL file specifications and the entries of the URLS name tree to the URL file; each is written to that file and no other.",
  I, "all dictionaries",
  "No test covers extraction.",
  ["pdf/object.go", "pdf/file.go"], [("extract", "pdf/object.go"), ("File.Extract", "pdf/file.go")], ["javascript.js", "urls.txt"])
p("C26", "A dumped file's manifest hash is the MD5 of its content and its file name",
  "For every dumped file the same data is hashed, written and listed: the file in the output directory contains exactly the extracted bytes, its name is the MD5 of those bytes, and the manifest line pairs that MD5 with the document's name for the file.",
  I, "all embedded files and forms",
  "No test extracts files.",
  ["pdf/output.go", "pdf/file.go", "pdf/object.go"], [("DumpFile", "pdf/output.go")], ["files.txt"])
p("C27", "Every in-use object and every nested value is extracted",
  "A parse extracts every in-use object of the loaded document and writes each to the raw dump, and extraction of an object visits every value nested in its dictionaries and arrays, every action and additional action, every embedded file of the name tree, every part of a form and every page. Name trees and page trees are followed through every kid that has not been visited before, with everything found below a kid kept, and the text written to the raw dump contains every key, value and element and the number, value and stream of the object. Page tree kids that are not references, and objects kept in object streams, are outside this statement.",
  I, "all documents",
  "No test covers extraction.",
  ["pdf/pdf.go", "pdf/object.go"], [("Parse loop", "pdf/pdf.go"), ("extract", "pdf/object.go")], ["raw.pdf"])
p("C28", "All shown text of every page is written with the font in effect",
  "Every page found by following the page tree is handled, and every content stream of every page is read to its end command by command. Inside a text object (BT to ET) each text showing operator (Tj, ', \", TJ) writes its last operand decoded with the font selected by the last Tf in that text object, or with the default font if none or a font that the page's resources do not have was selected; for TJ all string elements of the array are decoded, in order, joined without separators. Nothing shown inside a text object is dropped.",
  I, "all content streams and resources",
  "No test covers page text.",
  ["pdf/page.go", "pdf/dictionary.go", "pdf/parser.go"], [("Page.Extract", "pdf/page.go"), ("ReadCommand", "pdf/parser.go")], ["contents.txt"])
p("C29", "Character maps translate codes as their bfchar and bfrange entries say",
  "Reading a font's ToUnicode map, every bfchar entry maps its code to its destination string, and every bfrange entry with a string destination maps each code from start to end (within a limit of at least 65536 codes per font) to the destination with the distance from start added to it as a big endian number. Decoding splits text into complete codes of the map's code width, from the first byte to the last complete code, writes the mapped string for every mapped code and the code itself for every unmapped one, each exactly once.",
  I, "all character maps and texts",
  "One test checks the size limit only.",
  ["pdf/font.go"], [("NewFont", "pdf/font.go"), ("Font.Decode", "pdf/font.go"), ("incrementString", "pdf/font.go")])
p("C30", "Failures to open, set up or unlock are reported to the caller",
  "If the input cannot be opened, any of the seven output files cannot be created, or the document cannot be unlocked, the parse returns a non-nil error and extracts nothing, and the command line program prints that error to standard error; a parse that gets past these steps returns nil.",
  ["inputs", "fault_sequences"], "all failing operations during setup and load",
  "No failing setup is tested.",
  ["pdf/pdf.go", "pdf/output.go", "pdf/parser.go", "main.go"], [("error returns", "pdf/pdf.go Parse, pdf/output.go NewOutput, pdf/parser.go Load"), ("report", "main.go")])
p("C31", "The same document always produces the same output",
  "Nothing the tool produces depends on map iteration order, time, randomness or the environment: parsing the same bytes with the same password writes the same output files.",
  ["inputs", "schedules"], "all documents; all map iteration orders",
  "A test run sees one iteration order.",
  ["pdf/*.go"], [("sorted keys", "pdf/dictionary.go keys, pdf/pdf.go Parse, pdf/parser.go Load")])
p("C32", "Cross-reference sections are decoded field by field",
  "Each entry of a cross-reference table or stream is recorded under subsection start plus its index with its own offset, generation and type; in tables only n entries are in use; in streams the fields have the declared widths in the order type, offset, generation, a missing type field means in use, and without Index the single subsection is 0 to Size.",
  I, "all tables and streams, widths and subsections",
  "Three small samples.",
  ["pdf/parser.go", "pdf/utility.go"], [("loadXrefTable, loadXrefStream", "pdf/parser.go"), ("ReadInt64", "pdf/utility.go")])
p("C33", "Stream data is exactly the bytes between the stream line and endstream",
  "The raw data of a stream starts after the line end (LF, CR or CR LF) that follows the stream keyword and ends before endstream without the one line end preceding it, or at the end of input; no other byte is added, dropped or reordered.",
  I, "all stream bodies, including ones containing partial end markers",
  "Samples with ordinary bodies only.",
  ["pdf/parser.go"], [("ReadStream", "pdf/parser.go")])
p("C34", "Numbers have the value their digits denote",
  "Integer and real tokens evaluate to the number they denote in decimal notation within floating point precision.",
  I, "all digit sequences",
  "A few small values.",
  ["pdf/parser.go"], [("ReadNumber, ReadInt64", "pdf/parser.go")])
p("C35", "Stream decoders invert their encoders",
  "For every byte sequence, decoding the ASCIIHex, ASCII85, RunLength, Flate or LZW encoding of it yields the sequence again.",
  I, "all byte sequences",
  "One sample each.",
  ["pdf/filters.go"], [("decoders", "pdf/filters.go")])
p("C36", "Memory and time stay proportional to the input",
  "Processing a document takes memory and time bounded by a fixed polynomial of its size.",
  I, "all documents", "Tests use small documents.",
  ["pdf/*.go"], [("caps", "pdf/font.go, pdf/parser.go")])
p("C37", "The raw dump is a PDF that parses to the same objects",
  "Parsing the raw dump again yields the same objects with the same values.",
  I, "all documents", "Tests compare single printed objects.",
  ["pdf/object.go", "pdf/string.go", "pdf/name.go"], [("String methods", "pdf/object.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
print(len(P), "properties")
