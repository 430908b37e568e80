prop("C01", "Every record is decoded field by field as the dump format lays it out",
 "For every well-formed record of a dump, each field of the decoded record is the value stored at that field's place in the dump format (big-endian, identifiers in the width the file header announces), and decoding consumes exactly the bytes the format assigns to the record. This holds for record headers, texts, classes, stack frames and traces, GC roots, class dumps including their constant pool and static and instance field lists, and the headers of instances, object arrays and primitive arrays.",
 ["inputs"], "every byte content of a record, every count inside it, identifier sizes 4 and 8",
 "The tests decode one hand-made record per kind, mostly with 8-byte identifiers and one or two list elements; a swapped pair of equal-width fields, a 4-byte identifier or a longer list is not reached.",
 ["internal/core/base_parsers.go", "internal/core/primitive_parsers.go", "internal/core/records.go", "internal/core/types.go"],
 [("one reader per field, called in layout order", "internal/core/base_parsers.go"), ("big-endian primitive readers", "internal/core/primitive_parsers.go")],
 "symbolic layout of each decoder compared with the format's layout table",
 "decides the decoded value and the consumed length of each record parser for both identifier sizes; well-formed input assumed")
prop("C02", "Walking a dump stays in step with its records and indexes the right offsets",
 "After every record the next header is read exactly where the record ends, for all record and sub-record kinds, so that no record is skipped, read twice or read out of step. For every instance, object array and primitive array the position remembered for its identifier is the position of that very object's record in the dump file.",
 ["inputs"], "every sequence of well-formed records and sub-records, segments of any number, identifier sizes 4 and 8",
 "The end-to-end test walks one small dump; drift shows only with the kinds, type widths and counts that dump does not contain.",
 ["internal/dump/parser.go", "internal/core/sizes.go"],
 [("running position advanced by each record's size", "internal/dump/parser.go"), ("class dump size computed from its field lists", "internal/core/sizes.go")],
 "loop-carried position and stream offset related by induction; offsets compared with the format's record lengths",
 "decides next-header offsets, recorded offsets and keys for every kind; relies on C01 for single records",
 state=[("running position", "number of dump bytes consumed so far", "internal/dump/parser.go")])
prop("C03", "Every record of a dump is kept once, under its own kind",
 "While a dump is parsed, each text, class, frame, trace, GC root and class-dump record is stored exactly once, unchanged, under its own kind; every instance and array is counted once; the identifier size and the timestamp of the file header are stored.",
 ["inputs"], "every sequence of well-formed records, identifier sizes 4 and 8",
 "The existing test compares a few stored records of one dump; a kind stored under a sibling's table, stored twice or dropped under some condition is not sampled.",
 ["internal/dump/parser.go", "internal/storage/small.go", "internal/storage/meta.go"],
 [("one storage call per record kind", "internal/dump/parser.go")],
 "for each kind, the path condition of its storage call compared with the condition that such a record was read",
 "decides that on all paths each decoded record reaches the storage call of its kind exactly once with the decoded value")
prop("C06", "Record kinds the tool does not know never derail the parse",
 "When the dump contains a record or sub-record kind that the tool does not process, the parse either stops with an error or skips exactly that record's length as the dump format defines it. It never goes on from a wrong position and never reports success after meeting a kind it cannot skip.",
 ["inputs"], "every value of the kind byte of records and sub-records, at every position",
 "Tests feed only dumps made of known kinds.",
 ["internal/dump/parser.go", "internal/core/tags.go"],
 [("kind dispatch with an error default", "internal/dump/parser.go")],
 "exhaustiveness of the kind dispatch: path conditions of continuing and of succeeding for each unknown kind",
 "decides the dispatch over all 256 kind bytes at both levels")
prop("C28", "An object is found by its identifier exactly where the index put it",
 "The index keeps every pair of identifier and position it is given, in order and unchanged, however many there are, and refuses identifiers that do not come in increasing order. Looking up an identifier gives the position stored for it, whatever the number of records, and reports that it is missing only when it is not in the index; an index file that is cut in the middle of a record is rejected. Instances, object arrays and primitive arrays each have their own index, written and read under the same file name.",
 ["inputs", "history"], "every sequence of identifiers, every number of records including batch boundaries, every key looked up",
 "Tests use a thousand consecutive keys and a batch of 100; the real batch of a million, its last record, the ends of the search range and gaps between keys are not reached.",
 ["internal/storage/index.go", "internal/storage/big.go", "internal/cmd/subcommands.go"],
 [("batched writer with order check", "internal/storage/index.go"), ("binary search reader", "internal/storage/index.go")],
 "invariants of writer and bisection: bytes written plus held after each step; window, probe and step of the search",
 "decides that each accepted pair is kept once, in order, over all states of the writer, and that the search is a correct bisection; no integer overflow of record counts",
 state=[("current batch", "records accepted and not yet written", "internal/storage/index.go")])
prop("C04", "A failure is reported, never turned into a success",
 "When opening, reading, decoding, looking up or writing fails in any step of a command, the command ends with a message and a non-zero exit status; no function that can report an error reports success after a step it needs has failed. A dump that is cut off anywhere is reported as an error, not as a smaller dump. A command in which nothing fails never ends with a failure status.",
 ["inputs", "faults"], "every fallible call failing in any combination, every place where a dump may be cut off",
 "Tests exercise the successful path and a handful of decoding errors; a swallowed error of a later call, a close or a flush is never provoked.",
 ["cmd/neojhat/main.go", "internal/cmd/subcommands.go", "internal/dump/parser.go", "internal/storage/big.go", "internal/summary/summary.go"],
 [("errors returned up to main", "internal/cmd/subcommands.go"), ("exit with status 1", "cmd/neojhat/main.go")],
 "error-flow analysis: a ghost failure flag against the returned error, per function, and against the exit status in main",
 "decides every function with an error result and main; excludes probing with Stat, closing files opened for reading, and write errors of the plain console output")
prop("C05", "A read that yields less than was asked for is never taken for the whole",
 "However the bytes of the dump or of an index arrive, in pieces of whatever size, the same values are read: where a read may yield fewer bytes than were asked for, the rest is read too before the bytes are used. What the tool makes of a file does not depend on where its buffers end.",
 ["inputs", "faults"], "every place where a piece may end, every size of a text, value or payload",
 "Tests read from memory, where every read is complete; a text or value that crosses the end of a buffer is not sampled.",
 ["internal/core/base_parsers.go", "internal/core/primitive_parsers.go", "internal/core/file_header_parser.go", "internal/storage/index.go"],
 [("full reads of texts and values", "internal/core/primitive_parsers.go"), ("records of the index", "internal/storage/index.go")],
 "enumeration of all calls that take bytes from a stream; dataflow of the count of each raw read",
 "decides every reading call of the program; that library functions fill their destination or fail is taken from their documentation")
prop("C33", "Only a file that begins as a supported dump is read as one",
 "A file that does not begin with the text of the supported format version, \"JAVA PROFILE 1.0.2\", ends in an error before any record is read or kept, be it a dump of another version or no dump at all; a dump of that version is never refused for its header. Identifiers are read only where the header gives them 4 or 8 bytes.",
 ["inputs"], "every content of the first bytes of the file, every identifier size",
 "Tests parse one valid header and one empty file; another version, a text that only begins alike, or an odd identifier size is not among them.",
 ["internal/core/file_header_parser.go", "internal/core/primitive_parsers.go", "internal/dump/parser.go"],
 [("check of the version text", "internal/core/file_header_parser.go"), ("check of the identifier size", "internal/core/primitive_parsers.go")],
 "path conditions of every step behind the header compared with a specification of the header",
 "decides every step of the parse behind the header, both ways; a file named like an index that is there already is not read as a dump (C07)")
prop("C34", "Class names, signatures and sizes are shown the way Java programmers write them",
 "A class name is shown with dots for its slashes. Every method signature and array type is shown as its parameter types in order, separated by commas, and its result type, each type as its Java name, with one pair of brackets for every dimension, whatever names occur in it and however many parameters it has. A number of bytes is shown in whole units of B, K, M or G, the largest that is not larger than it.",
 ["inputs"], "every class name, every signature, every size",
 "Tests format a handful of names, signatures and sizes; a class whose name begins with L, an array among the parameters after a class or a size at the edge of a unit need not be among them.",
 ["internal/format/format.go"],
 [("signatures", "internal/format/format.go"), ("sizes", "internal/format/format.go")],
 "normal forms of the results compared with a specification, the loops' variables coupled by the coarsest partition their steps respect",
 "decides the text of every name, signature and size; signatures have to be read in one loop over their letters whose state is kept in one of the ways the specification knows (counted, noted, kept apart)")
prop("C10", "No dump makes the tool crash",
 "However malformed the dump is (unknown Java types, texts shorter than their identifier, signatures that end early, classes that are their own superclass, strings whose value is not an array, sizes of zero, missing records), reading it and computing the summary, threads and objects reports ends with a result or an error message and never with a run-time panic: no index out of range, no nil dereference, no failed type assertion, no division by zero, no unknown type handed to the size computation.",
 ["inputs"], "every content of the dump, on every path of every function of the program",
 "Tests feed well-formed records; each panic needs its own malformed field.",
 ["internal/core/sizes.go", "internal/core/base_parsers.go", "internal/java/heap.go", "internal/format/format.go", "internal/output/objects.go"],
 [("checked indexing and type assertions", "internal/java/heap.go"), ("types checked on decoding", "internal/core/base_parsers.go")],
 "run-time panic conditions of every instruction shown unreachable under the path condition and the loops' invariants",
 "decides every index, slice, division, dereference, type assertion, map write, explicit panic; decoded records carry known types only; excludes column widths of the console and memory exhaustion")
prop("C20", "The threads report shows each thread's own attributes and its own stack",
 "The threads report has exactly one entry for every thread root of the dump. Each entry carries the name, status, priority, daemon flag and identifier stored in that thread's own object, and the frames of that thread's own stack trace, in order, each with its own class, method, file and line. A name of a frame that is missing from the dump is shown as unknown and does not lose the thread or the rest of its stack.",
 ["inputs"], "every number of threads, frames and GC roots, every object graph, every missing name",
 "The existing test compares the report of one dump; exchanged attributes that happen to be equal there, a second thread with the same frames or a missing text are not sampled.",
 ["internal/threads/threads.go", "internal/java/heap.go"],
 [("one entry per thread root", "internal/threads/threads.go"), ("attributes read by field name", "internal/threads/threads.go")],
 "symbolic result of the report function compared field by field with a specification, loops as maps and filters",
 "decides every field of the report except local variables, and the layers it reads through; relies on C01-C03 and C07 for what is stored")
prop("C21", "Every frame lists exactly its own local variables",
 "With local variables shown, each frame of the threads report lists exactly the objects that the dump's JNI-local and Java-frame roots assign to that thread and that position in its stack: none lost, none listed twice, none under another frame or thread. Each is listed with its own identifier and the type of the object itself: its class, its array type, or the class it stands for.",
 ["inputs"], "every number and order of roots, threads and frames, every stack depth, every kind of object",
 "The test dump has few locals in few frames; one object held by two threads, roots of both kinds in one frame, deep stacks or roots that come in another order are not sampled.",
 ["internal/threads/threads.go"],
 [("roots grouped by thread and position", "internal/threads/threads.go")],
 "symbolic result of the report function compared with a specification; grouping loops and look-ups in the groups as filters in normal form",
 "decides the list of locals of every frame; relies on C20 for the frames and C01-C03, C07 for the stored roots")
prop("C22", "The summary lists the dumped process's own system properties and environment",
 "The summary's system properties are exactly the key/value pairs stored in the dump under java.lang.System.props, each key with its own value, none lost, whatever the table's size and however long its collision chains are. The environment (name, version, architecture, Java version, vendor, VM name and so on) shows the values of the documented property keys.",
 ["inputs"], "every table size, chain length and key order of the properties map",
 "The end-to-end test has one dump with one table; chains of three or more nodes, empty buckets at the ends and other table sizes are not reached.",
 ["internal/summary/summary.go", "internal/java/heap.go"],
 [("walk of table and chains", "internal/summary/summary.go")],
 "symbolic result of the summary function compared with a specification; table and chains as loops in normal form",
 "decides keys, values and environment entries over every table and chain, and the layers read through; tree bins of the map are refused with an error, which the specification shares")
prop("C23", "Heap totals and per-class object numbers are the real ones",
 "The summary's number of heap objects, classes and roots and the heap size, and the objects report's number of instances and total size per class, are what the records of the dump add up to: the count of each class times its own instance size, arrays by their own element sizes and numbers. No class, array kind or root kind is counted twice or left out.",
 ["inputs"], "every set of classes, counts and sizes, including those with no instances",
 "The tests compare numbers of one dump whose many zero and equal counts hide an omitted or doubled addend.",
 ["internal/summary/summary.go", "internal/objects/objects.go", "internal/dump/parser.go"],
 [("sums over counters", "internal/summary/summary.go"), ("one line per class", "internal/objects/objects.go")],
 "symbolic sums of the report functions compared with specifications",
 "decides the arithmetic from the stored counters to the report; the counters themselves are decided by C03")
prop("C24", "The reported uptime is the time from the start of the JVM to the dump",
 "The uptime in the summary is the difference between the time stamp in the dump's header and the start time the dumped JVM kept about itself, for every dump.",
 ["inputs"], "every time stamp, every start time, identifier sizes 4 and 8",
 "One dump has one uptime, and the test pins it only there.",
 ["internal/summary/summary.go"],
 [("uptime computed from header and runtime bean", "internal/summary/summary.go")],
 "symbolic result of the summary function compared with a specification",
 "decides the computation and the path by which the start time is found; the rendering as text is not covered")
prop("C25", "Values of every Java type are decoded with the right width, sign and meaning",
 "A stored value of each Java type (boolean, byte, char, short, int, long, float, double, object) has the size and the name of that type, is read big-endian with that type's width and sign, and is turned into a boolean, a signed integer or an object identifier according to its type; a value of another type is refused, not reinterpreted. Line numbers of frames are shown as a positive line, or as unknown, compiled or native as the format defines.",
 ["inputs"], "every type, every value, identifier sizes 4 and 8",
 "Tests convert one or two values per type, mostly small and positive, with 8-byte identifiers.",
 ["internal/core/types.go", "internal/core/sizes.go", "internal/core/primitive_parsers.go"],
 [("conversions of decoded values", "internal/core/types.go"), ("size table", "internal/core/sizes.go")],
 "symbolic result of each conversion compared with a specification, in both directions",
 "decides bool, int, long and object conversions, sizes, names and line numbers for every value")
prop("C08", "A field read by name is that object's own field, inherited ones included",
 "Reading a field of an object by its name yields the value stored for that field in that object, whether the object's own class or any of its superclasses declares it, wherever it stands among the fields and whatever types the fields before it have. The most derived declaration wins; a name that no class of the chain declares is reported as an error.",
 ["inputs"], "every class chain, every list of fields and types, identifier sizes 4 and 8",
 "Tests read fields of one or two small classes; an offset that goes wrong after an inherited field of another width does not show there.",
 ["internal/java/heap.go", "internal/core/sizes.go"],
 [("offset summed over preceding fields", "internal/java/heap.go")],
 "symbolic result of the look-up compared with a specification, chain and field list as loops in normal form",
 "decides the offset, the type and the bytes for every chain and field list")
prop("C09", "An object is read from its own record in the dump and nowhere else",
 "Reading an object or an object array by identifier reads the record at the position kept for that identifier: the object has that record's class and field bytes, the array has that record's elements in order, all of them. Nothing of a neighbouring record is read.",
 ["inputs"], "every identifier, position, payload length and number of elements, identifier sizes 4 and 8",
 "Tests read one object of a small file; lengths of zero, other widths and larger arrays are not sampled.",
 ["internal/java/heap.go"],
 [("seek to the indexed position, header, payload", "internal/java/heap.go")],
 "symbolic result and stream position of the readers compared with specifications",
 "decides which bytes of the dump make up each object; the position itself is decided by C02 and C28")
prop("C30", "Java strings are decoded from their own value arrays",
 "The text of a Java string object is the content of the array its value field refers to, whole and in order. Anything that is not a string object with a byte array as its value (a null reference, an object of another class, an array of another type) is reported as an error instead of being shown as text.",
 ["inputs"], "every string object, every array content and length",
 "Tests decode one string.",
 ["internal/java/heap.go"],
 [("value field followed to the array", "internal/java/heap.go")],
 "symbolic result of the string decoder compared with a specification, in both directions",
 "decides which bytes make up the text; their character encoding is left as stored (see DESIGN.md)")
prop("C31", "The tool comes to an end on every dump, also on a cyclic or cut one",
 "Whatever bytes the dump file consists of, every command either prints its report or stops with an error after finitely many steps; it never goes round forever. In particular reading a dump that is cut at any place ends, and so do a search in the index, following the superclasses of a class and following the linked entries of a table, also when the dump says that a class is its own superclass or that entries are linked in a ring.",
 ["inputs"], "every content of a dump and of an index, every chain and ring of objects and classes in it",
 "A test that does not end is never written; cyclic links, cuts at each byte and probes that meet each gap of an index are not sampled.",
 ["internal/dump/parser.go", "internal/storage/index.go", "internal/java/heap.go", "internal/summary/summary.go", "internal/output/threads.go", "internal/objects/objects.go"],
 [("record and sub-record loops", "internal/dump/parser.go"), ("bisection", "internal/storage/index.go"), ("superclass recursion with the classes on the way", "internal/java/heap.go"), ("chain of table entries with the visited ones", "internal/summary/summary.go")],
 "termination measures of all loops and recursions reachable from main, derived from their symbolic step functions",
 "decides foreground code; library calls and file operations are taken to return, and the goroutine showing the progress is left to C27; says nothing about how long the tool takes")
prop("C32", "A class is put together from its own records, with its own superclass chain",
 "The class of an object carries the name of its own load record, its own static and instance fields in the order of the dump, and as superclass the class its record names, recursively up to the class without superclass; it never shows fields, name or superclass of another class.",
 ["inputs"], "every class, chain length, number of fields",
 "Tests build one class without a deep chain.",
 ["internal/java/heap.go"],
 [("class record joined with its load record and names", "internal/java/heap.go")],
 "symbolic result of the class builder compared with a specification; recursion matched by identifier",
 "decides name, fields, and the superclass identifier of each step")
prop("C07", "What was stored from a dump is restored unchanged when it is read",
 "Every record the parser hands over (names, classes, frames, traces, roots, class dumps, counters, identifier size, time stamp) is found again, complete and unchanged, by the reading side, in this run and in every later run that reuses the index, whatever the number and order of the records. The report is made from the index of the very dump named on the command line, and the dump is parsed whenever there is no index yet.",
 ["inputs","history"], "every record of every kind, any number and order, both identifier sizes",
 "Tests store and restore a handful of records of each kind.",
 ["internal/storage/small.go","internal/storage/meta.go","internal/cmd/subcommands.go"],
 [("gob round trip of the collections", "internal/storage/small.go"), ("counters", "internal/storage/meta.go"), ("wiring of parser, files and readers", "internal/cmd/subcommands.go")],
 "symbolic round trip through a model of gob compared with a specification; type walk; wiring checked on the analysis of main",
 "decides puts, storage, restoration, look-ups and lists for every record kind, and which file is written and read")
prop("C17", "The same dump always gives the same report",
 "Running a report again on the same dump with the same options gives the same output: the order of lines and every value shown are decided by the dump and the options alone. Neither the time or machine of the run nor any internal hash order shows, not even among entries that tie in what they are ordered by.",
 ["inputs", "schedules"], "every dump, and every order in which Go may traverse a map",
 "A test sees one or a few map orders for each run; entries that tie in the sort key, classes of the same name from several loaders and values picked out of a traversal change only now and then.",
 ["internal/objects/objects.go", "internal/summary/summary.go", "internal/threads/threads.go", "internal/output"],
 [("sort of the printed items", "internal/output/objects.go"), ("sorted properties", "internal/summary/summary.go")],
 "taint walk over the symbolic reports and texts: map order, clock and environment as sources; sorts by total orders, sums, sets and own-key maps as sanitisers",
 "decides the reports and their plain, coloured and HTML texts; ties that sort.Slice leaves among listed (not hash-ordered) entries are decided by the input and count as the same")
prop("C18", "Every command and option does what its description says",
 "threads, summary and objects each make their own report of the dump given by -hprof; -output html or plain (the default) selects the format, -no-color the uncoloured text, -local-vars, -all-props and -sort-by size or count (the default) take effect in their command, and no option changes anything else. An option value or option that is not known is refused, and without -hprof or with an unknown command nothing is done but printing the usage.",
 ["inputs"], "every combination of command, options and values",
 "No test runs the command line.",
 ["cmd/neojhat/main.go","internal/cmd/flags.go","internal/cmd/subcommands.go"],
 [("flag sets and option values", "internal/cmd/flags.go"), ("choice of report and format", "internal/cmd/subcommands.go")],
 "abstract interpretation of main with options as unknowns; conditions and arguments of the calls compared with the documented ones",
 "decides which report is made, from what, how it is printed and where, for every command line")
prop("C14", "Standard output carries the report and nothing else",
 "While a report is made successfully nothing but the report is written to standard output, so it can be redirected to a file; progress goes to standard error only, and with -non-interactive nothing is printed there at all. The functions that print a report write only to the destination they are given.",
 ["inputs","schedules"], "every command line, every dump, progress goroutine included",
 "Tests call the output functions with a buffer and never look at the standard streams.",
 ["internal/cmd/interactive_print.go","internal/cmd/subcommands.go","internal/output/threads.go","internal/output/summary.go","internal/output/objects.go"],
 [("progress display", "internal/cmd/interactive_print.go"), ("report functions", "internal/output/threads.go")],
 "effect analysis: every print with its stream and condition; scan of all functions for the standard streams",
 "decides the destination of every print in the program")
prop("C11", "A dump need not fit into memory: no object is kept while it is parsed",
 "While a dump is parsed the contents of its objects and arrays are skipped, not read into memory, and what is remembered of each object stays bounded: its place in the index is held only until a batch of fixed size is written out, and counters are kept per class or type. A dump with more or larger objects of the same classes needs no more memory to be parsed.",
 ["inputs", "history"], "every number and size of objects and arrays in the dump",
 "Tests parse dumps of a few records; neither a long run of objects nor a large array is among them, and they look at results, not at what is held.",
 ["internal/dump/parser.go", "internal/storage/index.go", "internal/storage/meta.go", "internal/storage/big.go", "internal/core/base_parsers.go"],
 [("skipping of contents", "internal/dump/parser.go"), ("batches of the index", "internal/storage/index.go"), ("counters per class", "internal/storage/meta.go")],
 "effect analysis of the paths that handle an object (allocations, lists, map keys); induction over the states of the index writer for the bound of its batch",
 "decides the parse, the decoding of object heads, the index and the counters; memory as such is not measured, and records other than objects (texts, classes, stack frames, roots) are kept by design")
prop("C12", "The dump is never changed, nor anything but its own index",
 "Whatever happens, no command writes to, renames, truncates or removes the dump or any other file of the user: the only things created, changed or removed are the index directory that carries the dump's name with .db and temporary directories named after it in the same place.",
 ["inputs","faults"], "every path given, every failure of a file operation",
 "Tests never look at the file system.",
 ["internal/cmd/subcommands.go"],
 [("files opened, created, renamed, removed", "internal/cmd/subcommands.go")],
 "effect analysis: path of every mutating file operation as text and unknowns, over all outcomes",
 "decides the target of every file operation in the program")
prop("C13", "Only a complete index is ever found under the index's name",
 "If parsing is interrupted at any point or fails in any way, no partial index is left where a later run would use it: the index gets its name only when the whole dump was parsed and all its files were written without error. An index that is there is reused as it is; what a failed parse has written is removed.",
 ["crash points","faults"], "every point of interruption, every failing operation",
 "No test interrupts a parse or fails a write.",
 ["internal/cmd/subcommands.go"],
 [("index built aside and renamed", "internal/cmd/subcommands.go")],
 "ordering and path conditions of the file operations in the analysis of main, failures included",
 "decides for every path through the command what has been done when the index gets its name")
prop("C29", "Every entry and value of a report is printed, in each format",
 "The plain, coloured and HTML forms of a report show every thread with its name, identifier, priority, status, daemon mark and every frame (and, when asked for, every local variable), every summary value and property, and every class of the objects report with its count and size. Each number is the report's own: sizes in whole B, K, M or G of 1024, shares in whole percent of the total (0 when the total is 0), the location of a frame as file and line, as the file alone when the line is unknown, and not at all when the file is unknown. A local variable is shown by the name of its class; one that is itself a class by the word class and the name of that class, arrays of it included.",
 ["inputs"], "every report: any number of threads, frames, variables, properties and classes, every value",
 "Tests print a few fixed reports and compare the text; other sizes, empty lists, missing names, the flags of other threads are not reached, and the coloured forms are not tested at all.",
 ["internal/output/threads.go","internal/output/summary.go","internal/output/objects.go","internal/format/format.go"],
 [("the three forms of the threads report", "internal/output/threads.go"), ("rows of the summary", "internal/output/summary.go"), ("rows and shares of the objects report", "internal/output/objects.go"), ("units of sizes", "internal/format/format.go")],
 "value-flow analysis of the printed text (templates included) compared with a specification that writes every value",
 "decides words and their order in all nine printing functions for every report; column widths and white space excluded; the rendering of a signature by format.Signature is taken as one value")
prop("C26", "Reports are listed in their order, whatever order the dump has",
 "Threads are listed by increasing identifier, classes by the chosen measure with the largest first, equal ones by name and then by the other measure, and properties by name. The order is the same in the plain, coloured and HTML form.",
 ["inputs"], "every report, in every order of its entries, ties included",
 "Tests print lists that are sorted already or have no ties.",
 ["internal/output/threads.go","internal/output/objects.go","internal/summary/summary.go"],
 [("sorting of traces", "internal/output/threads.go"), ("sorting of classes", "internal/output/objects.go"), ("sorting of properties", "internal/summary/summary.go")],
 "comparison functions tabulated over all outcomes of comparing the keys; printed elements traced to the sorted list",
 "decides the order of the printed entries for every report; the order of two threads with the same identifier is left open, as in the code")
prop("C27", "The progress display disturbs neither the parse nor the report",
 "Whenever the display's background task runs, it shares nothing with the parse without synchronisation. Stopping it never waits for ever, whatever was displayed before, and happens once. After a dump was parsed successfully the task has ended, so that nothing of it is written while the report is.",
 ["schedules"], "every schedule of the background task against the parse, the reports and the end of the program",
 "Tests start no background task.",
 ["internal/cmd/interactive_print.go","internal/cmd/subcommands.go","internal/dump/parser.go"],
 [("start and stop of the display", "internal/cmd/interactive_print.go"), ("use around the parse", "internal/cmd/subcommands.go"), ("position of the parser", "internal/dump/parser.go")],
 "race analysis by locations, locksets and may-happen-in-parallel regions; rules on the control-flow graph for rendezvous and stopping",
 "locations are told apart by field, not by object; real time (how often the display is drawn) is not judged; on a parse error the task runs until the program exits, as in the code")
prop("C15", "Colours change nothing but the colour and never run on",
 "The coloured form of a report has the words of the plain form. Every colour that is switched on is switched off again before the line ends, and the plain and HTML forms contain no control codes of the tool's own.",
 ["inputs"], "every report, every branch and loop of the printing functions",
 "No test runs the coloured forms.",
 ["internal/output/colors.go","internal/output/threads.go","internal/output/summary.go","internal/output/objects.go"],
 [("colour codes and reset", "internal/output/colors.go"), ("coloured frames", "internal/output/threads.go")],
 "typestate of the colour over the text of each printing function, per case and loop body; text compared with the plain form",
 "decides all printing functions for every report; control codes inside names taken from the dump are not the tool's")
prop("C16", "Text from the dump never becomes markup in the HTML report",
 "In the HTML report every name, value and number taken from the dump appears as text: characters of markup in it are escaped. Whatever the report contains, however many entries, the page's own elements are properly nested and closed.",
 ["inputs"], "every report, every text in it, any number of entries",
 "Tests print one page per report with harmless names.",
 ["internal/output/html.go","internal/output/threads.go","internal/output/summary.go","internal/output/objects.go"],
 [("pages written by html/template", "internal/output/threads.go"), ("common page", "internal/output/html.go")],
 "taint analysis of the page's text to the escaping of html/template; typestate of open elements over constants, cases and loops",
 "decides the three pages for every report; the escaping itself is html/template's")
prop("C19", "Each thread's state is the one the JVM itself would report",
 "The state shown for a thread (RUNNABLE, BLOCKED, WAITING, TIMED_WAITING, TERMINATED, NEW) is what Thread.getState gives for the status bits stored in its object, for every combination of bits.",
 ["inputs"], "every 32-bit status",
 "Tests print threads with two different status values.",
 ["internal/threads/models.go"],
 [("translation of status bits", "internal/threads/models.go")],
 "result term over the unknown status tabulated over all combinations of the bits it depends on, compared with the JVM's table",
 "decides the name for every status; two known findings: a status with no state bit is shown the wrong way round")
