#!/usr/bin/env python3
# One-off generator for /verif/properties.jsonl (kept so that the list is easy to edit).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
I = "include/strigi/"
L = "lib/"
CONTRACT = "read/skip/reset/position/size/status of the stream under test"

p("C01", "In-memory streams obey the stream contract exactly",
  "For any content and any sequence of read, skip and reset calls, an in-memory byte or wide-character stream delivers exactly its content in order: a read returns between min and max items unless the end comes first, a skip moves by exactly min(n, remaining), a reset to any position inside the stream succeeds, and position, size and status always agree with what was delivered. A read at the end returns -1 with end-of-stream status, and with copying enabled later changes to the caller's buffer are invisible.",
  ["inputs", "histories"], "all contents (including embedded NULs and empty), all operation sequences, all min/max/skip/reset arguments including 64-bit ones",
  "The tests run a handful of fixed read sizes over a few fixed strings; the guarantee is over all operation histories and argument values.",
  [I+"stringstream.h", I+"streambase.h"], [("position arithmetic in read/skip/reset", I+"stringstream.h")], [CONTRACT])
p("C02", "File streams deliver the file's bytes under any access history",
  "Buffered, unbuffered, skipping and memory-mapped file streams over the same regular file deliver byte-identical content under any sequence of reads, skips and resets, honouring min/max, moving skips by exactly min(n, remaining) and reporting size, position and end-of-stream exactly. A reset to any position in the file that reports success continues with the bytes at that position; a missing, unreadable or directory path gives an error status with a message instead of data.",
  ["inputs", "histories", "configurations"], "all file contents and sizes (including empty), operation sequences, buffer sizes and ways of opening the file (path, FILE*)",
  "Tests read four fixed files with fixed chunk sizes and never mix resets, skips and end-of-file in long histories.",
  [L+"fileinputstream.cpp", L+"skippingfileinputstream.cpp", L+"skippingfileinputstream2.cpp", L+"skippingbufferedstream.h", L+"mmapfileinputstream.cpp", I+"fileinputstream.h"],
  [("fillBuffer over stdio", L+"fileinputstream.cpp"), ("seek + read", L+"skippingfileinputstream.cpp"), ("mapping window", L+"mmapfileinputstream.cpp")], [CONTRACT])
p("C03", "Buffered streams keep the read contract for any producer behaviour",
  "For a stream built on the buffering base class, whatever amounts the producer delivers per fill (single items, partial, full, zero-then-more) and however the consumer mixes reads, skips and resets, the items come out exactly once and in order, min/max are honoured, and the pointer returned by a read stays valid and unchanged after a reset into that segment. The end is reported only when all items were delivered, the producer is never asked again after it reported the end or an error, and it is never handed an unusable buffer.",
  ["inputs", "histories"], "all producer chunkings, item types, buffer sizes and consumer histories",
  "Existing stream tests exercise the buffering layer only through producers that fill in a regular pattern and consumers with fixed patterns.",
  [I+"bufferedstream.h", I+"streambuffer.h"], [("compaction and growth of the buffer", I+"streambuffer.h"), ("write loop and end detection", I+"bufferedstream.h")], [CONTRACT, "arguments of each fillBuffer call"])
p("C04", "Gzip, zlib and raw deflate streams reproduce the original bytes",
  "For every byte string and every compressor setting, decompressing its gzip (with any combination of optional header fields), zlib or raw deflate encoding through the library yields exactly the original bytes followed by end-of-stream, for any chunking of the compressed input and any read/skip/reset history of the consumer. Trailing bytes after the compressed data do not change the result.",
  ["inputs", "histories", "configurations"], "all contents, compression levels/strategies, header options, input chunkings, consumer histories",
  "One .gz file is read with fixed sizes by the tests; header variants, chunkings and raw/zlib modes are not covered.",
  [L+"gzipinputstream.cpp"], [("inflate driver and header parsing", L+"gzipinputstream.cpp")], [CONTRACT])
p("C05", "Bzip2 streams reproduce the original bytes",
  "For every byte string and every block size, decompressing its bzip2 encoding through the library yields exactly the original bytes followed by end-of-stream, for any chunking of the compressed input and any read/skip/reset history of the consumer. A stream that does not start with the bzip2 signature is reported as an error.",
  ["inputs", "histories", "configurations"], "all contents, block sizes, input chunkings, consumer histories",
  "One .bz2 file is read with fixed sizes by the tests.",
  [L+"bz2inputstream.cpp"], [("BZ2_bzDecompress driver", L+"bz2inputstream.cpp")], [CONTRACT])
p("C06", "LZMA streams reproduce the original bytes",
  "For every byte string, decompressing its LZMA-alone encoding (size known or unknown in the header, with end marker when the size is unknown) through the library yields exactly the original bytes followed by end-of-stream, for any chunking of the compressed input and any read/skip/reset history of the consumer. An input that does not carry the LZMA header is reported as an error.",
  ["inputs", "histories", "configurations"], "all contents, dictionary sizes, known/unknown size, input chunkings, consumer histories",
  "One .lzma file is read with fixed sizes by the tests.",
  [L+"lzmainputstream.cpp", L+"lzma/LzmaDec.c"], [("LzmaDec_DecodeToBuf driver", L+"lzmainputstream.cpp")], [CONTRACT])
p("C07", "Damaged compressed data is never reported as a complete stream",
  "When a gzip, zlib, bzip2 or LZMA stream is cut at any byte before its end, reading it through the library delivers a prefix of the original and then ends in an error status with a message; it never reports end-of-stream short of the complete original. A gzip, zlib or bzip2 stream whose payload or checksum was altered never delivers an end-of-stream with content different from the original (unless the altered bytes are themselves a well-formed stream whose checksum fits what is delivered), and an LZMA stream that refers to bytes outside its dictionary, or whose end marker comes before its declared size, ends in an error after a correct prefix.",
  ["inputs", "crash_points"], "all contents, all cut positions, all single-field and bit alterations, all chunkings",
  "The tests contain no truncated or corrupted compressed data.",
  [L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp"], [("premature-end checks", "readFromStream/fillBuffer of each codec")], [CONTRACT])
p("C08", "A sub-stream exposes exactly its window of the parent stream",
  "A sub-stream created at parent position p with limit n behaves as a stream whose content is bytes [p, p+n) of the parent (or [p, end) without limit): no sequence of reads, skips and resets ever delivers a byte outside that window or out of order, and its positions are relative to p. If the parent ends before the declared window, the sub-stream reports an error and never end-of-stream; without a limit its size becomes known at the end.",
  ["inputs", "histories"], "all parents, windows, and operation histories including resets before, at and beyond the window's end",
  "The tests exercise sequential reads of one window only, never resets at the limits or short parents.",
  [L+"subinputstream.cpp"], [("window clamping in read/skip/reset", L+"subinputstream.cpp")], [CONTRACT])
p("C09", "A string-terminated sub-stream ends exactly at the first terminator",
  "A string-terminated sub-stream delivers exactly the parent's bytes from its start up to the first occurrence of the terminator (or to the parent's end if there is none), wherever the terminator lies relative to the chunks the parent delivers and to the caller's min/max, and for any history of reads, skips and resets. Its size after the end equals the bytes delivered, its offset is the parent position it started at, and at the end the parent is left right behind the terminator.",
  ["inputs", "histories"], "all contents, terminators (including self-overlapping ones), parent chunkings and histories",
  "Tests use one terminator at one place with one chunking.",
  [L+"stringterminatedsubstream.cpp", L+"kmpsearcher.cpp"], [("search over the read-ahead window", L+"stringterminatedsubstream.cpp")], [CONTRACT, "offset()"])
p("C10", "Data events see every byte exactly once, in order",
  "A data-event stream hands its handler the source's bytes exactly once each and in order, whatever the history of reads, skips and backward resets on the stream, and signals the end exactly once, after all bytes. If the handler stops being interested, the stream's content is unaffected and the handler receives no more data; the consumer always sees the unmodified source content.",
  ["inputs", "histories"], "all contents, source chunkings, operation histories, and points where the handler declines further data",
  "The tests only run the generic read pattern with a handler that ignores what it gets.",
  [L+"dataeventinputstream.cpp"], [("high-water position tracking", L+"dataeventinputstream.cpp")], ["handleData/handleEnd calls", CONTRACT])
p("C11", "Base64 decoding is the inverse of base64 encoding",
  "For every byte string, decoding its base64 encoding through the stream decoder yields exactly the original bytes then end-of-stream, for any line lengths and white space between characters, any padding-complete layout, any input chunking and any consumer history. The one-shot decoder yields the same bytes for the same encoded text without white space, including the empty text.",
  ["inputs", "histories"], "all contents and lengths mod 3, line layouts, chunkings, histories",
  "A single short encoded string is tested.",
  [L+"base64inputstream.cpp"], [("quartet accumulation across chunks", L+"base64inputstream.cpp")], [CONTRACT, "Base64InputStream::decode result"])
p("C12", "Character-set conversion streams match a whole-text conversion",
  "Converting a byte stream from a source encoding to UTF-8 bytes or to wide characters through the library yields exactly what converting the whole input at once yields, whatever the chunk boundaries (including inside multi-byte sequences), buffer limits and consumer history. Invalid or cut-off input ends in an error, with nothing but a prefix of the correct text delivered before it, and an unknown encoding name gives an error status.",
  ["inputs", "histories", "configurations"], "all texts, supported encodings, chunk boundaries, read sizes",
  "Tests convert a few fixed files with default chunking.",
  [L+"encodinginputstream.cpp", L+"inputstreamreader.cpp"], [("carry-over of incomplete sequences", "fillBuffer/decode of both converters")], [CONTRACT])
p("C13", "Process streams deliver the child's output and feed its input completely",
  "A process stream delivers exactly the bytes the child writes to standard output followed by end-of-stream, and when given an input stream the child receives exactly that stream's bytes then end-of-file, for any sizes and chunkings, including data larger than pipe buffers in both directions and children that exit early or do not read. Destroying the stream at any point leaves no child process, zombie or descriptor behind and does not disturb the calling process, and concurrent process streams, of the same or of other threads, do not block each other.",
  ["inputs", "schedules", "histories"], "all input/output sizes, chunkings, child behaviours (early exit, slow writer, non-reader), destruction points",
  "Tests run two tiny commands to completion.",
  [L+"processinputstream.cpp"], [("pipe set-up, select loop, wait", L+"processinputstream.cpp")], [CONTRACT, "what the child received (echoed back)", "children and descriptors after destruction"])
p("C14", "Substring search returns the first occurrence and only real ones",
  "For every non-empty pattern and every text, the searcher reports the position of the first occurrence of the pattern in the text, or reports none exactly when the pattern does not occur, and never looks at bytes outside the given text. The answers are the same when a searcher is reused with shorter or longer patterns and other texts.",
  ["inputs"], "all patterns and texts, in particular periodic and self-overlapping patterns, occurrences at the very ends, bytes above 127",
  "Seven fixed pattern/text pairs are tested.",
  [L+"kmpsearcher.cpp", I+"kmpsearcher.h"], [("failure table and scan", L+"kmpsearcher.cpp")], ["return values of search functions"])
p("C15", "Text utilities agree with the standards they name",
  "UTF-8 validation accepts exactly the well-formed UTF-8 strings of XML characters (no overlong forms, surrogates, U+FFFE, U+FFFF, control characters or values above U+10FFFF) and otherwise points into the first offending sequence or reports an incomplete trailing sequence as such, without reading past the given length. The little- and big-endian integer readers return the integer of the named width and byte order for every byte pattern at any address. Line-end conversion of a valid string replaces exactly its CR and LF bytes by spaces.",
  ["inputs"], "all byte strings, all lengths, all integer widths and orders",
  "No existing test calls these functions on more than a handful of inputs.",
  [L+"textutils.cpp", I+"textutils.h"], [("state checks per lead byte", L+"textutils.cpp"), ("inline readers", I+"textutils.h")], ["return values"])
p("C16", "Tar archives are listed and extracted exactly",
  "For every well-formed tar archive (old, ustar and GNU long-name entries, files and directories), enumerating it yields exactly its members in order with their names, types, sizes and modification times, each member's stream delivers exactly the member's bytes, and enumeration then ends without error. Names at field-width limits, names of which all or a part is in the prefix field, octal fields with any legal padding, empty members and sizes at block boundaries are handled alike.",
  ["inputs"], "all well-formed archives over the supported dialects and any input chunking",
  "Four fixed tar files are enumerated.",
  [L+"tarinputstream.cpp"], [("header parsing and block skipping", L+"tarinputstream.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C17", "Cpio archives are listed and extracted exactly",
  "For every well-formed new-ASCII cpio archive, enumerating it yields exactly its members up to the trailer, in order, with their names, types, sizes and modification times, each member's stream delivers exactly the member's bytes, and enumeration then ends without error. Name and data padding for every length modulo four and hexadecimal digits of either case are handled alike.",
  ["inputs"], "all well-formed archives and any input chunking",
  "One fixed cpio file is enumerated.",
  [L+"cpioinputstream.cpp"], [("hex field parsing and 4-byte padding", L+"cpioinputstream.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C18", "Ar archives are listed and extracted exactly",
  "For every well-formed ar archive (short names with or without trailing slash, and names from the extended name table), enumerating it yields exactly its members in order with their names, sizes and modification times, each member's stream delivers exactly the member's bytes including odd-sized ones with padding, and enumeration then ends without error. The symbol table and name table are not reported as members.",
  ["inputs"], "all well-formed archives and any input chunking",
  "Three fixed ar files are enumerated.",
  [L+"arinputstream.cpp"], [("60-byte header and name table", L+"arinputstream.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C19", "Zip archives are listed and extracted exactly",
  "For every well-formed zip archive with stored or deflated members (sizes in the four-byte fields of the local header, or deflated with a trailing data descriptor), one without members included, enumerating it yields exactly its members in order with their names, types, uncompressed sizes and the modification time encoded in the DOS date and time fields, each member's stream delivers exactly the original bytes, and enumeration then ends without error. Extra fields, comments of members and of the archive, and the central directory do not disturb it.",
  ["inputs", "configurations"], "all well-formed archives, DOS timestamps, extra fields and any input chunking",
  "Four fixed zip files are enumerated and times are not checked.",
  [L+"zipinputstream.cpp", L+"dostime.cpp"], [("local header parsing, data descriptor skipping", L+"zipinputstream.cpp"), ("DOS time decoding", L+"dostime.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C20", "Rpm packages are listed and extracted exactly",
  "For every well-formed rpm package whose payload is a gzip-, bzip2- or LZMA-compressed cpio archive, enumerating it yields exactly the payload's members in order with their names, sizes and bytes, whatever the number, order, alignment and size of header entries before the payload. Enumeration then ends without error.",
  ["inputs"], "all well-formed packages over header layouts, payload compressions and chunkings",
  "One fixed rpm file is enumerated.",
  [L+"rpminputstream.cpp"], [("lead, signature and header skipping, payload detection", L+"rpminputstream.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C21", "Mail messages are split into their exact parts",
  "For every well-formed mail message (LF or CRLF line ends), multipart or single part, the library reports the subject and content type as written (with folded header lines joined and encoded words decoded from their character set), and yields each attached part in order with its file name and exactly its content: decoded for base64 parts, and for other encodings the bytes up to the boundary line including the line end before it, wherever part boundaries fall relative to buffer limits. Text in a part that resembles its boundary without containing it (after two dashes) does not end that part.",
  ["inputs"], "all well-formed messages over header foldings, line endings, boundaries, nested multiparts, encodings and chunkings",
  "A few fixed mails are enumerated and their content is hardly compared.",
  [L+"mailinputstream.cpp", L+"stringterminatedsubstream.cpp", L+"base64inputstream.cpp"], [("header scanning and boundary tracking", L+"mailinputstream.cpp")], ["nextEntry/entryInfo/entry stream", "subject/contentType"])
p("C22", "Sd files are split at every record delimiter",
  "For every structure-data file of non-empty records in which the record delimiter ($$$$) stands only on lines of its own, enumeration yields one entry per record and the entries' contents in order are exactly the bytes of the file between the record delimiter lines: no byte of a record is lost, duplicated or moved to its neighbour. This holds for LF, CRLF and CR line ends and wherever the delimiters lie relative to the chunks the input delivers.",
  ["inputs", "histories"], "all record counts, sizes and delimiter positions relative to chunk boundaries",
  "One fixed file is enumerated and contents are not compared.",
  [L+"sdfinputstream.cpp"], [("delimiter search and entry hand-over", L+"sdfinputstream.cpp")], ["nextEntry/entry stream", "status()"])
p("C23", "Ole compound documents yield their streams exactly",
  "For every well-formed OLE2 compound document with 512-byte sectors and non-empty stream objects with ASCII names, enumeration yields each stream object of the directory with its name and size, and each entry delivers exactly the stream's bytes by following the block chains, for streams in big blocks and in small blocks and for any block order on disk. Enumeration then ends without error.",
  ["inputs"], "all well-formed documents over chain layouts, small/big streams, directory sizes and input chunkings",
  "Two fixed documents are enumerated without comparing contents.",
  [L+"oleinputstream.cpp"], [("chain following", L+"oleinputstream.cpp")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C24", "Enumerating an archive does not depend on how entries are consumed",
  "For every supported archive format, the sequence of entries (names, sizes, types, times) and the content of each entry that is read are the same whether the caller reads every entry fully, partially, by skipping, or not at all before asking for the next, and the same for any chunking of the input stream, whether or not the input knows its size, and wherever in its input the archive starts (a compound document is always the whole input). Asking for entries after the last one keeps returning none with the same status.",
  ["inputs", "histories", "configurations"], "all archives, all per-entry consumption patterns, all input stream kinds",
  "Tests enumerate with one consumption pattern per format.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"cpioinputstream.cpp", L+"arinputstream.cpp", L+"mailinputstream.cpp", L+"sdfinputstream.cpp", L+"oleinputstream.cpp", L+"rpminputstream.cpp", L+"subinputstream.cpp"],
  [("nextEntry skips what is left of the previous entry", "nextEntry of each provider")], ["nextEntry/entryInfo/entry stream"])
p("C25", "The archive reader agrees with the archive tree",
  "For any file tree containing archives nested in any supported way, stat, directory listing and opening through the archive reader agree with the true tree: every member path can be stat'ed and opened and yields exactly the member's metadata and bytes, directory listings contain exactly the direct members once each, a file is recognised as the format it has even when its first bytes also look like another one (a tar archive or SD file that starts like a mail header), and a path that does not exist is reported as such and never resolves to another member.",
  ["inputs"], "all trees, nesting depths, name prefixes/suffixes of one another, and present or absent paths",
  "The test walks one archive and only compares counts.",
  [L+"archivereader.cpp", L+"listinginprogress.cpp", L+"archiveentrycache.cpp", L+"filestreamopener.cpp", L+"substreamproviderprovider.cpp"],
  [("positioned provider stack", L+"archivereader.cpp"), ("listing tree", L+"listinginprogress.cpp")], ["stat/openStream/dirEntries/isArchive results"])
p("C26", "Archive reader answers do not depend on query history",
  "The answer of the archive reader to any stat, listing or open request depends only on the files as they currently are, not on which requests came before, how many listers or streams are open or were abandoned half-way, or which listers were copied or assigned; when a file is replaced and its modification time changes, later answers reflect the new content. No query history makes it crash or touch freed memory.",
  ["histories"], "all interleavings of stat, open, partial/full listing, lister copy/assign/destroy, and file replacement",
  "The test makes a single pass of queries with one lister.",
  [L+"archivereader.cpp", L+"listinginprogress.cpp", L+"archiveentrycache.cpp"],
  [("entry cache and shared listings in progress", L+"archivereader.cpp")], ["results of each query compared with a fresh reader and the model"])
p("C27", "Hostile bytes never corrupt memory",
  "Whatever bytes are fed to any decoder, archive reader or text utility of the library, and however the caller reads, skips, resets and enumerates within the documented preconditions, no memory outside live objects is read or written, no undefined behaviour occurs and the process does not abort.",
  ["inputs", "histories"], "all byte strings (random, mutated and field-wise extreme versions of valid files) and consumer histories",
  "Tests contain a handful of malformed files and run without memory checking.",
  ["lib", "include/strigi"], [("bounds checks in every parser", "lib/*.cpp")], ["AddressSanitizer, UBSan and assertion reports"])
p("C28", "Hostile bytes never cause unbounded work",
  "Whatever bytes are fed to any decoder or archive reader, enumeration and reading terminate: the number of entries and of requests made to the input, the memory held and the recursion depth are bounded by a modest function of the input size and of the amount of data delivered.",
  ["inputs"], "all byte strings, in particular self-referencing structures and huge length fields",
  "No test contains cyclic or length-lying files.",
  ["lib"], [("loop termination in parsers", "lib/*.cpp")], ["count of calls on the input, entries, bytes delivered, peak heap, CPU time"])
p("C29", "Nothing is leaked and ownership is as documented",
  "Whatever the input bytes and whichever point in reading or enumeration the caller stops at and destroys the objects in the documented order, all memory, file descriptors, mappings and child processes acquired by the library are released, the caller's input stream is never deleted by it, and nothing is released twice.",
  ["inputs", "histories", "fault_sequences"], "all inputs (valid and hostile) and all destruction points",
  "Tests never measure leaks and mostly destroy streams at the end.",
  ["lib", "include/strigi"], [("destructors of streams and providers", "lib/*.cpp")], ["live heap bytes, descriptor table, children before and after each case"])
p("C30", "Independent streams can be used from different threads",
  "Threads that each use their own streams, archive enumerations and archive readers, sharing no library object, never race on library state and each obtains exactly the results it obtains when running alone.",
  ["schedules", "inputs"], "all interleavings of threads using separate objects, including first use of each component",
  "Every test is single-threaded apart from one mail thread test without race detection.",
  ["lib"], [("absence of unsynchronised static state", "lib/*.cpp")], ["ThreadSanitizer reports", "per-thread results compared with a sequential run"])
p("C31", "Results are determined by the input bytes alone",
  "Processing the same bytes with the same call sequence gives the same entries, metadata, data, statuses and error messages every time, independent of previous heap and stack contents; no decision or output depends on uninitialised memory.",
  ["inputs", "configurations"], "all inputs, valid and hostile, and all prior memory contents",
  "Tests run once, in an environment where fresh memory happens to be zero.",
  ["lib", "include/strigi"], [("initialisation of members and buffers", "constructors in lib/*.cpp")], ["trace digest under differing heap/stack fill patterns", "valgrind memcheck reports"])
p("C32", "Input errors are reported, never turned into a normal end",
  "If the input stream of any decoder, filter or archive reader starts failing at any call, the failure surfaces: the stream or provider being used ends with an error status and a non-empty message, never with a normal end-of-stream, data delivered before the failure is a correct prefix, and once in error every further read fails in the same way.",
  ["fault_sequences", "inputs"], "every position of the first failing input call, over all components, formats and consumption patterns",
  "No test injects input errors.",
  ["lib"], [("checks of the input's return values", "fillBuffer/read/nextEntry of each component")], ["status(), error(), return values, delivered bytes"])
p("C33", "Format detection accepts its own format and reads only what it is given",
  "For every supported format, the header test accepts the beginning of every well-formed file of that format when given at least the bytes it needs, refuses it once its signature is damaged (for mails: once the given bytes are not 7 bit text or a header name is not a name; for tar: once a byte other than zero follows the first name in its field) and is a pure function of the given bytes, never looking beyond the stated size; opening a stream through automatic detection yields the entries of the format the file was written in, and input of no known format is left unconsumed and readable from its start.",
  ["inputs"], "all headers, all sizes from zero up, all formats",
  "Tests check detection only implicitly on fixed files.",
  ["lib", L+"substreamproviderprovider.cpp"], [("checkHeader functions", "lib/*inputstream.cpp")], ["checkHeader results on exact-size buffers", "SubStreamProviderProvider results"])
p("C34", "A cut-off archive is never presented as complete",
  "When a tar, cpio, ar, zip or rpm file is cut at any byte, every member reported before the cut has its true name, size and content, the member containing the cut never reaches end-of-stream with fewer bytes than its declared size, and unless the cut falls between members (or into the padding behind one) enumeration ends in an error status with a message.",
  ["inputs", "crash_points"], "all archives and all cut positions, all chunkings",
  "Only one or two truncated files exist and only their status is checked.",
  [L+"tarinputstream.cpp", L+"cpioinputstream.cpp", L+"arinputstream.cpp", L+"zipinputstream.cpp", L+"rpminputstream.cpp", L+"subinputstream.cpp"],
  [("short-read handling", "nextEntry/readHeader of each provider")], ["nextEntry/entryInfo/entry stream", "status()"])
p("C35", "The compressing stream produces a faithful zlib encoding",
  "For every source stream, the bytes produced by the compressing stream decompress to exactly the source's bytes, for any chunking of the source and any read/skip/reset history of the consumer, and are deterministic for the same source. A failing source yields an error, not a shorter complete encoding.",
  ["inputs", "histories", "fault_sequences"], "all contents, chunkings and consumer histories, all failure points",
  "The test for this component is not built.",
  [L+"gzipcompressstream.cpp"], [("deflate driver", L+"gzipcompressstream.cpp")], [CONTRACT])
p("C36", "Streams and providers keep their call contract whatever the bytes",
  "For arbitrary and corrupt bytes (not only valid encodings), every stream and archive provider keeps the contract of the stream interface: read() returns between min and max bytes unless it ends, -1 with status Eof at an end, -2 with status Error and a message on a failure; the position is always the sum of what was delivered; the size, once known, does not change and equals the final position at Eof; a stream that ended or failed stays so until it is reset; re-reading after a reset gives the same bytes; and a provider that returned its last entry does not return another.",
  ["inputs", "histories"], "all byte sequences fed to every codec and archive format, all histories of read, skip and reset",
  "The tests feed a handful of well-formed files; what the calls return on malformed ones is not looked at.",
  [L+"bufferedstream.h", L+"streambase.h", L+"subinputstream.cpp", L+"lzmainputstream.cpp", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp"],
  [("fillBuffer implementations", L+"*inputstream.cpp"), ("buffer and state machine", L+"strigi/bufferedstream.h")], [CONTRACT, "nextEntry/currentEntry"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
