PV = "path-sensitive value-numbering dataflow over the SSA form with virtual inlining"
T["C24"] = (PV + ": must-reach of lookup results at output sinks", "Decides that every action of a visited dictionary is handled and that every launch/file target the lookups find reaches the right output on every path, and that nothing else reaches commands.txt; the text formatting of each entry is not judged.")
T["C25"] = (PV + ": must-reach of lookup results at output sinks and source/sink discipline", "Decides which looked-up values reach javascript.js and urls.txt on every path; does not decide that actions stored elsewhere in the document are visited.")
T["C06"] = (PV + ": path provenance of every file creating call", "Decides the path expression of every file-creating call and the file behind every output field; file system state (symlinks inside the output directory) is outside.")
T["C07"] = ("effect analysis over the type-checked program: denied packages and functions, provenance of every file system mutation, read-only use of the input handle", "Decides which external facilities are referenced and where every mutation goes; trusts the standard library to do what its documentation says.")
T["C08"] = (PV + ": guard domination of destructive calls", "Decides the guards on every path of main and Parse; races with other processes between the test and the removal are outside.")
T["C09"] = (PV + ": typestate of opened handles", "Decides closing on every path to a return; process exit and panics are outside.")
T["C20"] = ("call-site query over the type-checked program: no short-read API on stream readers, no use of buffer occupancy", "Decides that no result depends on how many bytes a single Read returns.")
T["C26"] = (PV + ": value identity of hash, path and data", "Decides that manifest hash, file name and data are functions of the same value on every path; md5 itself is trusted.")
T["C30"] = (PV + ": error-result implication at every return", "Decides that success is reported only when every failing step succeeded, for the listed entry points.")
T["C31"] = ("order-effect analysis of every map range plus nondeterminism-source query", "Decides that no output order comes from map iteration, time, randomness or environment.")
T["C05"] = (PV + ": every return of every typed lookup compared with the type test and resolution the name promises", "Decides result value and ok flag of every exported getter on every path; the number of reference hops is outside.")
T["C19"] = (PV + ": typestate of the reader position over seek, read and restore", "Decides that every path that moves the shared position to resolve or look ahead puts it back before the caller continues.")
T["C10"] = (PV + " with a symbolic byte-string domain: must-reach of the authentication comparison before success", "Decides on every path of SetPassword/Load which comparisons authenticate and that nothing decrypts without one; the cryptographic primitives are trusted.")
T["C14"] = (PV + " with a symbolic byte-string domain: every hash input, round loop and key cut compared with the derivation the format specifies", "Decides the derivation as terms over md5/rc4/concatenation/slices; the primitives themselves are trusted.")
T["C13"] = (PV + ": filter registration and selection as terms over the encryption dictionary, loop coverage of CF, decryptor bodies as terms over rc4 and aes-cbc", "Decides which filter every string, stream and embedded file gets on every path and what each decryptor computes; the ciphers themselves are trusted.")
T["C11"] = (PV + ": decryptor provenance at every nested read and exactly-once typestate of decryption on every exit of the readers", "Decides which key every string and stream of an object is decrypted with and that every exit of the readers decrypts all collected data exactly once; decryption itself is C13 and C14.")
T["C12"] = (PV + ": typestate of the clear marks of cross-reference entries", "Decides on every path of scanning and loading which entries are marked to be read in clear and that the marks precede the reads; that two entries of the same object exist only for malformed files is not judged.")
T["C27"] = (PV + ": loop coverage (start, step, bound, early exits) of every collection walked by the extraction and handling of every element on every path of an iteration, with an abstract accumulator for the trees", "Decides that no element of a walked collection can be passed over and that what is collected is returned; that the getters resolve values correctly is C05.")
T["C15"] = (PV + ": exhaustive path dispatch, loop coverage of the filter list with a versioned chain value, terms of the lists handed to the stream reader", "Decides for every path which decoder is applied, to what data, with which parameters and in which order; what the decoders compute is C16 and the standard library.")
T["C03"] = ("call-graph cycle enumeration with a termination measure per cycle (" + PV + ": bounded restored counters, marks in visited maps, descent into parts of finite values)", "Decides for every cycle of the call graph that it cannot be followed for ever; that the limit chosen fits the stack is arithmetic on the constants and is not judged.")
T["C04"] = ("ranking analysis of every natural loop of the program (" + PV + ": a consumed byte, a counter with a bound fixed before the loop or a shrinking collection on every back edge, with function read summaries keyed by the next byte)", "Decides for every loop that each iteration moves a bounded measure on every path; relies on C19 for getters leaving the reading position where it was.")
T["C28"] = (PV + ": typestate over the commands of a content stream (text object open, font in effect, operands) with loop coverage of the streams, commands and TJ elements", "Decides on every path what is decoded with which font and written; the reading of operands is C21 and C22, inherited resources are outside.")
T["C29"] = (PV + ": the terms put in the map, the counting loops over entries and codes, the big endian folds and the stepping of the decoder compared with what the format says", "Decides on every path what is recorded for a code and what decoding writes; array destinations of bfrange are outside.")
T["C21"] = (PV + ": simulation of every path of the token, array, dictionary and stream readers by reference automata over byte classes, compared in what they log", "Decides for every byte or object read which messages are logged on every path; numbers of repeated scans of the same object are not judged.")
T["C22"] = (PV + ": simulation of every path of the token readers by reference automata over byte classes, compared in what they write, put back and return", "Decides for every byte in every state of a token what it contributes and where the token ends; strconv is trusted to convert digits.")
T["C23"] = (PV + ": exhaustive dispatch on byte classes of the leading bytes and simulation of the array, dictionary and command readers by reference automata over objects and errors", "Decides on every path which reader is chosen and what becomes of every element; nesting beyond the depth limit is outside.")
T["C33"] = (PV + ": typestate of the bytes between input, look-ahead window and data, with enumeration of the possible line ends at the end of the data", "Decides on every path that each byte is moved exactly once and which bytes are cut; applies to readers built on buffers and a window, others are reported as not judged.")
T["C01"] = ("interval and linear-inequality analysis on every path of every function (" + PV + ": integer ranges, length relations, loop-carried limits and argument ranges passed from callers), with one obligation per index, slice, allocation, division, shift and length-checked library call", "Decides each site for all documents and passwords; upper bounds of lookups into a buffer the loop is appending to are outside.")
T["C32"] = (PV + ": typestate of a section (start, length, fields of the current entry) with loop coverage of subsections and entries and a big endian fold of the fields", "Decides on every path what each entry is made of, under which number it is recorded and that no entry of a well-formed section is passed over; entries of types the format does not define are outside.")
T["C17"] = (PV + ": typestate of the list of places (found, sorted, extended, loaded) and of a section (marked, previous loaded, merged), loop coverage of places, trailer keys and entries, inclusion of regular languages for the patterns searched for", "Decides on every path in which order sections are loaded and merged and that no place, key or entry is passed over; hybrid XRefStm entries and startxref further than the tail that is read from the end are outside.")
T["C18"] = (PV + ": typestate of the search position, loop coverage of the scanned objects with the comparison of every entry against the header at its offset, inclusion of regular languages for the header pattern", "Decides on every path what is recorded for a match and when an entry is added, redirected or left alone; what ReadObjectHeader accepts is C21/C22.")
T["C02"] = ("interprocedural nil-ness analysis as a greatest fixpoint of contracts for parameters, results, fields, elements and variables (" + PV + "), with one obligation per dereference, map write, function value call, interface call, unchecked assertion and comparison of interfaces", "Decides each site for all documents and ways of use; callers outside the repository are assumed to pass non-nil values except the output of NewParser; library functions are trusted not to return nil on success.")
T["C16"] = ("path-sensitive polynomial value numbering over one iteration of each nested loop of the predictor code, with helpers inlined, method and neighbour tests as linear inequalities, and iteration counters for coverage", "Decides for every method, place in a row, parameter and path which bytes make up the byte put out, that rows and columns are covered, what predictor values do; GetBits and SetBits are trusted; shapes that keep rows in separate buffers are reported as not judged.")
NA["C34"] = "Numeric results over all literals are a value-level property; no structural necessary condition beyond those in C22/C23 was found that would not be a frozen code fragment."
NA["C35"] = "Round-trip equality of decoders with their encoders quantifies over runtime values; the structural clauses (dispatch, order, bounds, predictor dispatch) are claimed in C15, C16 and C01."
NA["C36"] = "Bounding memory and time over all inputs needs runtime quantities; the loop and recursion clauses are claimed in C03 and C04."
NA["C37"] = "Reparse equality of the raw dump is a round-trip property over runtime values."
