# ------------------------------------------------------------------ editing history
prop("U01", "Undo and redo walk exactly through the document states of the closed steps",
     "After any history of edits, closed steps, undos, redos and clears, each undo restores every tracked member to the "
     "value it had when the undone step began and each redo to the value it had when that step was closed, in order, "
     "whatever the member's type and however often it changed within a step. A move that is not possible (nothing to "
     "undo or redo, step still open) reports so and changes nothing, and a new edit discards exactly the redoable "
     "steps.",
     ["histories", "inputs"],
     "every sequence of edits of members of all supported kinds, step closes, undos, redos and clears",
     "the tests undo and redo a handful of fixed one- or two-edit steps; interleavings of repeated edits, partial "
     "undos, new branches and clears are combinatorial",
     ["src/core/UndoManager.cpp", "src/core/UndoChange.cpp", "src/core/UndoStep.cpp", "src/core/EditableObject.cpp",
      "include/core/UndoManager.h"],
     [m("registerChange / closeUndoStep / undo / redo / clear", "src/core/UndoManager.cpp"),
      m("swap of old and current value", "src/core/UndoChange.cpp"),
      m("order of changes within a step", "src/core/UndoStep.cpp")],
     [dict(name="undo and redo stacks", meaning="closed steps, latest first")])
prop("U02", "A transaction takes effect as a whole or leaves no trace",
     "A transaction (outermost open to matching close, with any nesting) either enters the history with all its edits "
     "or, when rolled back or when any operation in it reported a failing status, restores every member it changed to "
     "its value at the outermost open and leaves the history as it was. Closing reports the first-hand outcome "
     "status, member setters report unchanged and refused values and alter nothing in these cases, and undo and redo "
     "do nothing while a transaction is open.",
     ["histories", "fault_sequences"],
     "every sequence of edits, opens, closes, commits, rollbacks, failing reports, undos and step closes, nested to "
     "any depth",
     "the tests commit and roll back single fixed transactions; nesting, failing reports at any point, and "
     "interleaved steps are not covered",
     ["src/core/UndoManager.cpp", "src/core/EditableObject.cpp", "include/core/UndoManager.h"],
     [m("openTransaction / closeTransaction / rollback / registerTransactionStatus", "src/core/UndoManager.cpp"),
      m("setMember", "src/core/EditableObject.cpp")])
prop("U03", "The document's changed state and the objects' rebuild marks follow the edits",
     "The document is marked changed by every closed step that holds an edit and by every successful undo or redo, "
     "and by nothing else, until it is marked saved. An undo, redo or rollback marks every object it touched as in "
     "need of rebuilding and no other object. While the history is paused or there is none, edits are made but not recorded; "
     "dropping, creating or pausing it and the document's own marks change no object.",
     ["histories"],
     "every sequence of edits, steps, undos, redos, transactions, saves and rebuilds over several objects, with the history on, paused or absent",
     "the tests look at the flag after single operations; which of many operations, in which order, leave it set is "
     "not covered",
     ["src/core/UndoManager.cpp", "src/core/UndoChange.cpp", "src/core/Document.cpp", "src/core/EditableObject.cpp"],
     [m("setDocumentStatus / markGeometryForUpdate on swap", "src/core/UndoManager.cpp, src/core/UndoStep.cpp")])
# ------------------------------------------------------------------ ownership
prop("O01", "Objects live exactly as long as someone has a share in them",
     "An object that is held explicitly, referred to by a member of a living object, waiting in the pool of delayed "
     "releases, or needed by a step of the editing history is never destroyed, and it is destroyed once, at once, "
     "when the last of these shares goes. Draining the pool releases each entry as often as it was added, including "
     "entries that destructors add meanwhile, and always finishes. The flag bit stored beside the count and the "
     "count do not disturb each other.",
     ["histories"],
     "every sequence of create, retain, release, delayed release, drain, reference edits with and without history, "
     "steps, undos, redos, transactions and clears over object graphs",
     "the tests look at a few reference counts; premature destruction after undo, rollback or a dropped redo branch "
     "needs particular histories",
     ["include/core/Object.h", "src/core/Object.cpp", "src/core/AutoreleasePool.cpp", "src/core/UndoManager.cpp",
      "src/core/UndoChange.cpp", "src/core/EditableObject.cpp"],
     [m("retain / release / autorelease", "src/core/Object.cpp"), m("drain", "src/core/AutoreleasePool.cpp"),
      m("retain and release by changes that hold references", "src/core/UndoChange.cpp")])
prop("L01", "A linked list is the sequence its operations describe, under undo as well",
     "After any history of insertions, removals, swaps and clears, with or without an editing history, all views of "
     "the list agree: size, positions, membership, neighbours, first and last, and iteration from either side from "
     "any start give the same sequence. Undo, redo and rollback restore the list, element for element and in order.",
     ["histories"],
     "every sequence of list operations, iterations, steps, undos, redos and transactions",
     "the tests check fixed lists after one or two operations; link corruption shows only in particular combinations "
     "of position and history",
     ["src/core/LinkedList.cpp", "include/core/LinkedList.h", "src/core/UndoManager.cpp", "src/core/UndoChange.cpp"],
     [m("add / remove / swapData / clear", "src/core/LinkedList.cpp"),
      m("members first, last, prev, next tracked by the history", "src/core/LinkedList.cpp")])
# ------------------------------------------------------------------ texts
prop("S01", "Editing a text changes this text as documented and no other",
     "Every editing operation on a text yields exactly the documented character sequence, for every text, position, "
     "length and argument, including the text itself as argument. Other texts, among them its copies and extracts, "
     "keep their content, and out-of-range positions are refused or clipped without touching "
     "foreign memory.",
     ["histories", "inputs"],
     "every sequence of editing calls over several texts that share storage, all positions in and out of range",
     "the tests apply each operation to one or two literals; sharing between substrings and copies and boundary "
     "positions are not covered",
     ["src/core/String.cpp", "include/core/String.h"],
     [m("append / insert / delete / set / sub / trim / replace", "src/core/String.cpp"),
      m("shared character storage", "include/core/String.h")],
     [dict(name="text", meaning="sequence of UTF-16 code units")])
prop("S02", "Searching, replacing, splitting and trimming texts agree with their definitions",
     "For every text and argument, the search functions report the first or last position at which the argument "
     "stands at or after (before) the given start, and no position if there is none; prefix and suffix tests agree. "
     "Replacing substitutes exactly the non-overlapping occurrences from left to right, trimming removes exactly the "
     "leading and trailing blanks, and all these calls terminate.",
     ["inputs"],
     "all texts and arguments over small alphabets, all starts, and long self-similar texts",
     "the tests search a few literals; overlapping matches, empty arguments and matches at the borders are not "
     "covered",
     ["src/core/String.cpp"],
     [m("indexOf / lastIndexOf / startsWith / endsWith / replace / trim", "src/core/String.cpp")])
prop("S03", "Equality, order and hash code of texts are consistent",
     "Two texts are equal exactly if they hold the same characters, however they came about, and then have equal hash "
     "codes, before and after any edit. Comparison is the lexicographic order of the code units, with its "
     "case-insensitive variant the same after mapping case, and the natural order compares runs of digits as numbers; "
     "each of them is antisymmetric.",
     ["inputs", "histories"],
     "all pairs of texts over small alphabets and edits in between, with hash codes asked at any time",
     "the tests compare a few literals; a stale hash code needs an edit between two queries",
     ["src/core/String.cpp", "include/core/String.h"],
     [m("equals / compareTo / compareToIgnoreCase / naturalCompareTo / hashCode", "src/core/String.cpp")])
prop("H01", "The hash table is a map from texts to values",
     "After any history of puts, removes and clears, looking up a text gives the value put last under an equal text, "
     "if it was not removed since; put and remove return the previous value. The size counts the entries and "
     "iterating keys or values visits each entry exactly once, also across growth of the table and for keys with "
     "equal hash codes.",
     ["histories"],
     "every sequence of operations over colliding and non-colliding keys, through many growths of the table",
     "the tests use two dozen keys without removals in collision chains",
     ["src/core/Hashtable.cpp", "include/core/Hashtable.h"],
     [m("put / get / remove / rehash", "src/core/Hashtable.cpp")])
prop("S04", "Numbers and arguments are written into texts and read back exactly",
     "Every 64-bit integer, signed or not, appears as its decimal notation, and a decimal notation reads back as the "
     "same number while any other text is refused; decimal fractions are rounded to the digits asked for and read "
     "back exactly. Inserting an argument replaces all places of the lowest-numbered placeholder and nothing else, "
     "padded to the requested width and side.",
     ["inputs"],
     "all 64-bit integers including the extremes, dyadic fractions, templates with any placeholders, widths of "
     "either sign",
     "the tests format a few small numbers; extremes, unsigned values and repeated or many-digit placeholders are not "
     "covered",
     ["src/core/String.cpp", "include/core/String.h"],
     [m("toString of numbers / toInteger / toDouble / toBool", "src/core/String.cpp"),
      m("arg", "src/core/String.cpp")])
prop("C01", "Lists of texts and arrays hold the sequence their operations describe",
     "After any history of appends, insertions, removals, replacements and clears a list of texts or an array holds "
     "exactly the described sequence, also when the argument is the list itself or one of its entries, and copies "
     "are independent. Splitting a text gives the pieces between the separators and joining them restores the text.",
     ["histories", "inputs"],
     "every sequence of operations over several lists, with aliasing arguments and growth of the storage",
     "the tests build short fixed lists and never pass a list or one of its entries to itself",
     ["src/core/StringList.cpp", "src/core/StringTokenizer.cpp", "include/core/Array.h", "src/core/String.cpp"],
     [m("append / insert / remove / split", "src/core/StringList.cpp"), m("Array", "include/core/Array.h")])
prop("C02", "Byte arrays and stacks hold exactly the bytes and objects put into them",
     "After any history of appends, replacements, resizes, clears and extracts a byte array holds exactly the "
     "described bytes, at every value from 0 to 255, with the stated size and a terminating zero behind them; copies "
     "and extracts are independent of their origin, and searching and comparing agree with the bytes. "
     "A stack gives its objects back in reverse order and holds each of them alive meanwhile.",
     ["histories", "inputs"],
     "every sequence of operations over several arrays with sharing, growth, aliasing and bytes of all values",
     "the tests append a few ASCII bytes; replacement at offsets, empty arrays and copies of them are not covered",
     ["src/core/ByteArray.cpp", "include/core/ByteArray.h", "include/core/Stack.h"],
     [m("append / replace / resize / subArray", "src/core/ByteArray.cpp"), m("push / pop", "include/core/Stack.h")])
prop("E01", "Character sets map texts to bytes and back without loss",
     "Encoding a text gives the bytes its character set defines: UTF-8 with one to four bytes, UTF-16 in either byte "
     "order, Windows-1252, MacRoman, raw bytes. Decoding those bytes gives the text back. "
     "Decoding any other bytes reads no memory beyond them and loses none of them silently. Byte order marks are "
     "skipped or refused, guessing recognises them, and URL encoding is ASCII and reversible.",
     ["inputs"],
     "all texts and all byte sequences, valid or not, through every character set, in every form a caller may pass "
     "bytes",
     "the tests encode a few literals per set; truncated sequences, surrogate pairs, chart corners and unterminated "
     "buffers are not covered",
     ["src/core/Charset.cpp", "src/core/UTF8Decoder.cpp", "src/core/UTF16Decoder.cpp",
      "src/core/Windows1252Decoder.cpp", "src/core/MacRomanDecoder.cpp", "src/core/CharsetDecoder.cpp",
      "src/core/String.cpp"],
     [m("encode / decode of each character set", "src/core/UTF8Decoder.cpp"), m("guess", "src/core/Charset.cpp")],
     [dict(name="text", meaning="sequence of UTF-16 code units")])
prop("Z01", "Decompressing yields exactly the data the compressed stream describes",
     "Every well-formed compressed stream - stored, fixed and dynamic blocks in any mixture, any code lengths, any "
     "back references - decompresses to exactly the bytes the format defines, whatever program wrote it. Streams "
     "that are truncated or malformed are refused, and nothing is read beyond the input or written beyond the "
     "output.",
     ["inputs"],
     "all compressed streams, valid or not, and all truncations of them",
     "the tests inflate a handful of streams from one compressor; rare block types, extreme codes and damaged data "
     "are not covered",
     ["src/core/Inflater.cpp", "src/core/ZipEntryInputStream.cpp"],
     [m("inflate of every block type", "src/core/Inflater.cpp")])
prop("Z02", "Compressed data is a well-formed stream that decompresses to the original",
     "For every byte sequence the compressor writes a well-formed stream whose decompression is that sequence, "
     "including empty, repetitive and incompressible data, and the library's own decompressor gives it back.",
     ["inputs"],
     "all byte sequences of any length and entropy",
     "the tests compress a few compressible texts",
     ["src/core/Deflater.cpp", "src/core/Inflater.cpp"],
     [m("deflate", "src/core/Deflater.cpp")])
prop("Z03", "Archives hold exactly the entries written, and foreign archives are read exactly",
     "An archive written through any sequence of entries contains exactly those entries, in order, under their names, "
     "with their data and right checksums, in the ZIP format, also when several are written at once or an older one "
     "is replaced; no other file changes. Entries of archives from other programs, stored or deflated, are listed "
     "and read exactly; truncated or damaged archives never cause access outside the data.",
     ["histories", "inputs"],
     "all sequences of writer calls over several archives, and all archives, sound or damaged",
     "there is no test of archives",
     ["src/core/ZipFile.cpp", "src/core/ZipOutputFile.cpp"],
     [m("open / entry / stream", "src/core/ZipFile.cpp"), m("putNextEntry / write / closeEntry / close",
                                                            "src/core/ZipOutputFile.cpp")])
prop("B01", "Base64 and checksums of any bytes are exact",
     "Base64 encoding of any bytes is the standard padded text, decoding it gives the bytes back, and decoding a text "
     "that ends early or lacks the padding gives its complete bytes without reading beyond it. The CRC of a "
     "buffer is that of the CRC-16 polynomial from any initial value, so that it can be continued over parts.",
     ["inputs"],
     "all byte sequences, texts cut anywhere, every initial value",
     "there is no test of Base64 and of the checksum",
     ["src/core/Base64.cpp", "src/core/CRC.cpp"],
     [m("encode / decode", "src/core/Base64.cpp"), m("crc8", "src/core/CRC.cpp")])
prop("N01", "Integers keep their value in every notation",
     "Every 64-bit integer written in hexadecimal reads back as itself, also from lower case, leading zeros and a part "
     "of a text; the number of digits counts those of the decimal notation and the sign; Roman numerals and letter "
     "numerals (A to Z, AA, AB ...) denote the number.",
     ["inputs"],
     "all 64-bit integers including the extremes, carries and powers of each base",
     "there is no test of these notations",
     ["src/core/Integer.cpp", "include/core/Integer.h"],
     [m("digits / fromHex / toHexString / toRomanString / toLatinAlphabetString", "src/core/Integer.cpp")])
prop("F01", "A stream reads and writes exactly the bytes at its position",
     "For every sequence of opening, reading, writing, positioning and closing, file and memory streams behave like a "
     "sequence of bytes with a position: reading gives the bytes at the position and moves behind them, writing "
     "replaces or appends exactly there, a position outside is refused without change, a memory stream never grows or "
     "reads beyond its memory, and the file on the disk then has exactly these bytes.",
     ["histories"],
     "all sequences of stream calls, several streams on the same file, positions at and beyond the ends",
     "the tests do not use streams apart from writing one file",
     ["src/core/File.cpp", "src/core/MemoryStream.cpp", "src/core/Stream.cpp"],
     [m("read / readFully / write / seek / move / size", "src/core/File.cpp"),
      m("read / write / seek / move", "src/core/MemoryStream.cpp")])
prop("F02", "Paths follow the rules of names and file operations change only what they say",
     "For every text of a path: duplicate and trailing separators do not matter, name, parent, extension and join are "
     "consistent. For every directory tree and sequence of calls: creating, making directories, removing, renaming "
     "and opening succeed exactly where the file system allows it, change exactly the place named (never an existing "
     "file's contents by createNewFile), leave the tree unchanged when refused and report it; queries, lists, "
     "modification times and tags tell what is there.",
     ["inputs", "histories"],
     "all path texts; all histories of file operations on trees with directories, files, links and pipes",
     "the tests look at two paths and a file name",
     ["src/core/File.cpp", "include/core/File.h"],
     [m("normalize / resolve / name / parent / extension", "src/core/File.cpp"),
      m("createNewFile / makeDirectory / remove / renameTo / open / listFiles / tags", "src/core/File.cpp")])
prop("T01", "Dates follow the Gregorian calendar at every moment",
     "For every time in milliseconds, before and after 1970, year, month, day, day of the week, day of the year and time "
     "of day are those of the proleptic Gregorian calendar; a date built from these fields has that time, months and "
     "days and hours beyond their range carry over; the ISO text shows the fields, and comparisons follow the time.",
     ["inputs"],
     "all times, all field values, including leap days, centuries and negative times",
     "the tests look at a dozen moments",
     ["src/core/Date.cpp", "include/core/Date.h"],
     [m("yearFromTime / monthFromTime / dateFromTime / weekDay", "src/core/Date.cpp"),
      m("makeDay / makeTime / makeDate", "src/core/Date.cpp"), m("compareTo and the operators", "src/core/Date.cpp")])
prop("T02", "A date format shows exactly the fields its pattern names",
     "For every pattern made of the letters y M d E H m s S, other characters and texts between single quotes, and every "
     "date, the formatted text shows field by field what the pattern names, in the documented width: two letters pad "
     "numbers to two digits, names are short up to three letters and long from four; everything else is copied, quoted "
     "text literally.",
     ["inputs"],
     "all patterns and dates",
     "the tests use one pattern",
     ["src/core/DateFormatter.cpp"],
     [m("tokens of a pattern", "src/core/DateFormatter.cpp"), m("Pattern::appendPattern", "src/core/DateFormatter.cpp")])
prop("X01", "Written XML is well-formed and says exactly what the calls said",
     "For every balanced sequence of writer calls the document is well-formed XML whose elements, attributes and texts are "
     "exactly those of the calls, whatever characters the texts hold; white space is added only where indentation was "
     "asked for, attributes after the content are ignored, numbers appear in decimal, bytes as Base64; reading the "
     "document with the library's parser gives the same elements, attributes and texts.",
     ["histories", "inputs"],
     "all sequences of writer calls, all texts including markup characters",
     "there is no test of the XML writer",
     ["src/core/XMLWriter.cpp", "src/core/SAXParser.cpp"],
     [m("startElement / endElement / writeAttribute / writeCData / WriteBase64 / indentation", "src/core/XMLWriter.cpp")])
prop("X02", "Reading XML reports exactly the elements, attributes and texts of a document",
     "For every well-formed document made of elements, attributes in either quotes, text with the five predefined entities, "
     "comments and processing instructions, the parser reports start and end of every element in order with its "
     "attributes and values, and all the text inside the root element (as characters or ignorable white space) and nothing "
     "else; a damaged document never causes access outside the text or an endless loop.",
     ["inputs"],
     "all documents of that kind, and all damaged ones",
     "there is no test of the XML parser",
     ["src/core/SAXParser.cpp", "src/core/SAXAttributes.cpp"],
     [m("parse / parseTagString", "src/core/SAXParser.cpp"), m("attributes", "src/core/SAXAttributes.cpp")])
prop("P01", "Preferences keep what was set, also through their file",
     "For every history of setting, asking, saving and loading: the value asked for is the one set last; a default is given "
     "exactly when the value is missing, empty, or no number; saving and loading into a fresh object gives the same keys and "
     "values, whatever backslashes, tabs and line breaks the values hold; loading adds the lines of a file to what is there.",
     ["histories", "inputs"],
     "all histories, all values, all hand-written files",
     "there is no test of preferences",
     ["src/core/Preferences.cpp", "include/core/Preferences.h", "src/core/Hashtable.cpp"],
     [m("save / load with escaping", "src/core/Preferences.cpp"), m("value / valueInt / valueBool", "src/core/Preferences.cpp")])
prop("Q01", "A run of tests reports every failed assertion, and nothing else",
     "For every vector of tests and every argument: exactly the tests asked for are run, in their order; every assertion is counted, "
     "and it is an error exactly if its values differ (fractions: by more than the resolution) or an exception ends the test; every "
     "error is one line with its message and both values; the totals, the colour and the returned number tell the errors of this run "
     "alone, however often it is repeated; the tests are destroyed with their vector.",
     ["programs", "inputs"],
     "all vectors of tests, all assertions and their values, all arguments",
     "the test framework judges all other tests: an assertion that misses a failure makes them pass",
     ["src/core/Test.cpp", "src/core/TestVector.cpp", "include/core/Test.h"],
     [m("testEquals and the other assertions", "src/core/Test.cpp"), m("execute / testrun", "src/core/TestVector.cpp")])
prop("A01", "Applications keep settings, find their language and log whole lines",
     "For every history of runs of applications: a run starts with exactly the settings that the last save or end of a run of its "
     "bundle stored, none without a bundle, and a killed run stores nothing; it speaks the language of the environment, from the "
     "catalog closest to it; every message above debugging is one whole line with its colour, label and date, also when threads log "
     "at once, and the last error is remembered; at the end nothing is left of autoreleased objects.",
     ["histories", "crash_points", "configurations", "schedules"],
     "all histories of runs, all environments and installed catalogs, all times of the end of a run",
     "the tests start once, without a bundle, in one language, and log nothing that is looked at",
     ["src/core/System.cpp", "include/core/System.h", "src/core/I18nBundle.cpp", "src/core/Resource.cpp", "src/core/File.cpp"],
     [m("init / quit / savePreferences", "src/core/System.cpp"), m("log", "src/core/System.cpp"), m("language", "src/core/System.cpp"),
      m("transFileByBundleId", "src/core/I18nBundle.cpp"), m("PropertyDir / ResourceDir", "src/core/File.cpp")])
prop("I01", "Translation catalogs translate exactly their entries and damaged ones nothing",
     "For every catalog file (.mo), wherever its tables and texts lie, every entry's text is translated to the entry's "
     "translation, later catalogs replace earlier entries, and everything else is shown untranslated; a damaged or truncated "
     "catalog changes nothing and no byte outside the file is read.",
     ["inputs", "histories"],
     "all catalog files, sound and damaged; all sequences of catalogs",
     "there is no test of catalogs",
     ["src/core/I18nBundle.cpp"],
     [m("appendMo", "src/core/I18nBundle.cpp"), m("translate", "src/core/I18nBundle.cpp")])
prop("R01", "Numbers stored in a buffer have the stated byte order and are read back the same",
     "For every number, kind (16, 24, 32, 64 bits, signed or not, float, double), byte order and place in a buffer: storing "
     "writes exactly the bytes of the number in that order and returns their count, leaving all others; reading, from "
     "memory or a byte array, gives the number of these bytes, with its sign.",
     ["inputs"],
     "all numbers, kinds, places and buffers",
     "the tests do not use most of these functions",
     ["src/core/Serializer.cpp"],
     [m("serializeBE* / serializeLE*", "src/core/Serializer.cpp"), m("deserializeBE* / deserializeLE*", "src/core/Serializer.cpp")])
SNOTE = ("Stateless exploration of the real code under a controlled scheduler (a switch of threads possible at every memory access, "
         "bounded number of preemptions and of schedules per program; the run counts are in the recorded executions), every history "
         "checked by TLC against the specification with its unobserved steps. Sequentially consistent memory only.")
STECH = ("TLA+ specification checked with TLC; its programs run by the code under all schedules of a controlled scheduler, every "
         "history validated by TLC against the specification")
prop("M01", "Shared objects: references of several threads are all counted, each dies once",
     "For every program of threads that share objects, each giving up only references it holds (retain, release, autorelease, "
     "flags, draining the pool), and for every schedule: no reference is lost or counted twice, an object is destroyed exactly "
     "once, by the call that gives up the last reference, never used afterwards, and all calls come to their end.",
     ["schedules", "programs"],
     "all programs of several threads over shared objects, all interleavings of their memory accesses",
     "no test shares an object between threads, and a lost update needs one particular interleaving",
     ["src/core/Object.cpp", "src/core/AutoreleasePool.cpp"],
     [m("retain / release / autorelease", "src/core/Object.cpp"), m("AutoreleasePool::drain", "src/core/AutoreleasePool.cpp")],
     technique=STECH, note=SNOTE)
prop("M02", "A thread runs once per start, wakes when woken or interrupted, and is joined",
     "For every program: a started thread runs once, is alive until interrupted; a sleeping thread that is woken or interrupted, "
     "or whose time is over, goes on; an interruption returns only when the thread has come to its end, and then always, whatever "
     "the moment (just started, about to sleep, ended, never started, twice); it can be started again; its lock excludes; naming it "
     "names the thread that runs it, or, without one, nothing.",
     ["schedules", "programs"],
     "all programs that start, wake, interrupt and query threads, all interleavings",
     "the tests contain one thread with one schedule; a lost wake-up needs one particular interleaving",
     ["src/core/Thread.cpp"],
     [m("start / sleep / wakeUp / interrupt / isAlive / setName", "src/core/Thread.cpp")], technique=STECH, note=SNOTE)
prop("M03", "A mutex is held by one thread at a time; waking lets a sleeper go on",
     "For every program of threads that take, give back, sleep on and wake mutexes, and every schedule: at most one thread is "
     "between lock and unlock, a thread waiting for a free mutex gets it, wakeUp lets at least one of the threads asleep go on, "
     "nobody wakes without a wakeUp, and a sleeper does not keep the mutex.",
     ["schedules", "programs"],
     "all programs over mutexes, all interleavings",
     "there is no test of mutexes with more than one thread",
     ["src/core/Mutex.cpp"],
     [m("lock / unlock / sleep / wakeUp", "src/core/Mutex.cpp")], technique=STECH, note=SNOTE)
prop("M04", "Threads that share nothing they change do not disturb each other",
     "For every program of threads that work on objects of their own (texts, tables, numbers, encodings, dates, matrices, compression, "
     "documents) or only read the same ones, and every schedule: each call has the result it has alone. What threads share inside the "
     "library they share safely: log lines come whole, each once, those of a thread in its order, and the last error message is "
     "the one logged last.",
     ["schedules", "programs"],
     "all pairs of calls, all programs, all interleavings",
     "the tests run in one thread; a hidden buffer, cache or table shared by all threads gives right results there",
     ["src/core/System.cpp", "src/core/String.cpp", "src/core/Charset.cpp"],
     [m("System::log / lastErrorMessage", "src/core/System.cpp")], technique=STECH, note=SNOTE)
prop("D01", "The difference of two sequences is a shortest list of changes between them",
     "For any two sequences of objects: the distance is the least number of objects to add, remove or replace, and the printed "
     "changes are that many and, applied to the first sequence, give the second, naming at each change the very objects "
     "concerned; asking again, or clearing and starting anew, gives the same as a fresh computation.",
     ["inputs", "histories"],
     "all pairs of sequences",
     "no test compares sequences; the algorithm keeps diagonals lazily and switches the sequences' roles below the main one",
     ["src/core/DiffDistance.cpp", "src/core/DiffDiag.cpp", "src/core/DiffBacktrace.cpp", "src/core/DiffInfo.cpp"],
     [m("distance / solve", "src/core/DiffDistance.cpp"), m("backtrace", "src/core/DiffBacktrace.cpp"), m("entry", "src/core/DiffDiag.cpp")])
prop("K01", "Colours are converted, mixed and blended to the stated values",
     "For every colour of every mode: conversions give the stated red-green-blue, grey and CMYK components (within one), keep "
     "white white and black black and grey shades exactly, and do nothing the second time; hue, saturation and value are those "
     "of the colour and lead back to it; blending (Porter-Duff for transparent colours) and interpolation give the stated shares.",
     ["inputs"],
     "all colours of all modes with all transparencies, all shares",
     "there is no test of colours",
     ["src/core/Color.cpp"],
     [m("toRgb / toGreyScale / toCmyk", "src/core/Color.cpp"), m("hsvModel / FromHsv", "src/core/Color.cpp"),
      m("blend / interpolate", "src/core/Color.cpp")])
prop("V01", "Properties and variants keep and compare the value set last",
     "For every history of setting texts, whole, floating point and boolean numbers and values with units on properties, taking over "
     "values and copying: a property answers the value, its kind and its description as given; taking over a value leaves the "
     "description and makes the values equal; two values are equal iff text and number are, whatever was set before; properties are "
     "equal iff id, editor and the value that editor edits are; copies of variants keep type and value.",
     ["histories", "inputs"],
     "all sequences of assignments between properties and variants, all editors",
     "there is no test of properties or variants; number and boolean share their bytes",
     ["src/core/Property.cpp", "include/core/Property.h"],
     [m("set... / setValue / isValueEquals / operator==", "src/core/Property.cpp"), m("Variant", "include/core/Property.h")])
prop("G03", "Rectangles and bounding boxes contain exactly the points they should",
     "For every history over rectangles, points, sizes and bounding boxes: setting or shifting one edge leaves the three others, "
     "normalizing keeps the outline, the intersection holds exactly the common points (and is empty iff the rectangles do not "
     "meet), the union is the smallest rectangle around both; a bounding box spans exactly the points added to it, directly or "
     "with another box, on every axis.",
     ["histories", "inputs"],
     "all sequences of operations on rectangles and boxes, all coordinates",
     "there is no test of rectangles, points, sizes or bounding boxes",
     ["src/core/Rect.cpp", "src/core/Point.cpp", "src/core/Size.cpp", "src/core/Extents.cpp", "include/core/Rect.h"],
     [m("intersection / unionWith / setTop ...", "src/core/Rect.cpp"), m("add", "src/core/Extents.cpp")])
prop("N02", "Numeric helpers round, divide, compare and swap as documented",
     "For all numbers: division and remainder round towards minus infinity; rounding, also to decimal places, goes to the nearest "
     "with halves away from zero; of two values exactly one of equal, less, greater holds within the tolerance, the other "
     "comparisons agree; powers of two are recognised and reached from below; swapping exchanges, also a variable with itself; "
     "random numbers lie within their limits; interpolation and angles give the exact shares.",
     ["inputs"],
     "all numbers",
     "the tests hold one or two values for each function",
     ["src/core/Math.cpp"],
     [m("divFloor / modFloor / round / roundFrac", "src/core/Math.cpp"), m("isEqual / isLess ...", "src/core/Math.cpp"),
      m("swap / powerOf2 / random", "src/core/Math.cpp")])
prop("G01", "Matrices, vectors and transformations obey the laws of linear algebra",
     "For every history over matrices of all sizes and vectors: sums, products, transposition, insertion, determinant, inverse, "
     "norms, trace and eigenvalues are the exact ones and calls with unfitting sizes fail and change nothing; translations, "
     "scalings, mirrorings and rotations (about any axis, between any two directions) map points, lengths and angles as stated; "
     "dot and cross products, lengths, angles, orthogonality and collinearity are exact.",
     ["histories", "inputs"],
     "all sequences of operations over matrices and vectors, all entries",
     "the tests hold a handful of matrices and vectors, none for most of the operations",
     ["src/core/Matrix.cpp", "src/core/Vector.cpp", "src/core/Vertex2.cpp", "src/core/Vertex3.cpp", "src/core/Transform.cpp"],
     [m("operators, inverse, det, initAs...", "src/core/Matrix.cpp"), m("operators", "src/core/Vector.cpp"),
      m("angleTo / isCollinear ...", "src/core/Vertex3.cpp"), m("transLength / transAngle / ocs", "src/core/Transform.cpp")])
prop("G02", "Points of intersection, nearest points and distances are the exact ones",
     "For all points, lines, segments, planes, circles and arcs: the nearest point lies on the object and no other is nearer; "
     "distances are those to the nearest points (of lines in space too); two objects meet where both are, and have no point of "
     "intersection exactly if they do not meet; a ray is extended to the first point of a segment, arc or elliptical arc in front "
     "of it that lies between its ends; a point is on an object iff it is within the tolerance; circles through three points or "
     "touching two lines do so.",
     ["inputs"],
     "all points, lines, segments, planes, circles and (elliptical) arcs",
     "the tests hold some configurations of arcs, hardly any of the others",
     ["src/core/Geometry.cpp", "include/core/Geometry.h"],
     [m("closestPoint... / distance...", "src/core/Geometry.cpp"), m("intersectionPoint / crosses / intersectionPointsOfCircles", "src/core/Geometry.cpp"),
      m("extensionPointOn...", "src/core/Geometry.cpp"), m("circleParameterBy...", "src/core/Geometry.cpp")])
prop("G04", "A NURBS is the rational curve of its control points, weights and knots",
     "For every degree, control points, positive weights and knots: the curve begins at its first and ends at its last control "
     "point, at every parameter from the first to the last knot, both included, it has the point of the rational B-spline, and it "
     "keeps the control points and knots it was given.",
     ["inputs"],
     "all curves and all parameters",
     "there is no test of NURBS",
     ["src/core/NURBS.cpp", "include/core/Nurbs.h"],
     [m("point / N / R", "src/core/NURBS.cpp"), m("end / knot", "src/core/NURBS.cpp")])
