import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SC="src/v1/scan.rs"; WR="src/v1/writer.rs"; TW="src/v1/threaded_writer.rs"; HA="src/v1/hash.rs"; PA="src/v1/parser.rs"; EM="src/v1/emitter.rs"; ME="src/v1/merge.rs"; PR="src/v1/progress.rs"; RD="src/read.rs"; CF="src/config.rs"; HT="src/hash_type.rs"; BI="src/bin/index.rs"; MO="src/v1/mod.rs"

p("C01","A scan lists every directory, file and symlink exactly once and nothing else",
 "A successful scan of any set of source directories, each placed at its prefix, yields an index that contains exactly one line for every directory path of the merged tree (root included) and, under it, one entry per regular file and per symlink of every source, carrying its exact name bytes, its size, its owner-executable flag, or its exact link target. Symlinks are recorded and never descended into; FIFOs, sockets and devices are left out; nothing else is added, lost, renamed or moved to another directory.",
 ["inputs","configurations"],
 "every directory tree (any names, depths, sizes, modes, entry kinds, including file systems that do not report entry types), every list of source directories, every hash type and thread count",
 "three fixed trees with benign names, no symlink, no executable, no special file, one level of nesting and only complete d_type information are scanned today",
 [SC,WR,TW,CF],
 [("breadth of the tree walk: queue of (path, handles) and per-directory lists",SC+": scan"),("entry classification incl. unknown d_type",SC+": scan"),("several roots grouped by path",SC+": find_roots, group_by"),("entry lines",WR+": SyncWriter, "+TW+": ThreadedWriter")],
 ["bytes given to the sink of v1::scan","the file system tree, read independently"])

p("C02","Every file entry carries exactly the digests of its own blocks",
 "A file entry carries ceil(size / block_size) digests, and the i-th one is the digest, under the hash type named in the header, of exactly the bytes of the i-th block of that file, the last block unpadded and an empty file having none. The digests of a file depend on nothing but its content: not on other files, on scan order, or on the number of threads.",
 ["inputs","configurations","schedules"],
 "every file content and size (including every alignment to the block size and files above 4 GiB), every hash type, every set of other files in the tree, any thread count, and any way the system splits reads",
 "six files, one of them longer than a block and made of equal blocks; the expected value for blake3 is pinned to what the code does, not to the format",
 [HA,WR,TW],
 [("hash_file / total_hash reset the hasher per block",HA),("block loop over the file's length",WR+": add_file, "+TW+": add_file")],
 ["digest fields of entry lines","read() results the library saw"],
 [("per-file / shared hasher","must be in its initial state at each block start",WR+": SyncWriter.hash")])

p("C03","The index text is canonical: grammar, escaping and order",
 "Every index written by a scan is ASCII text in exactly the documented line grammar (header naming the hash type and block size, directory lines, two-space entry lines, single-space separators, lowercase hex, LF endings), with every byte <= 0x20, >= 0x7F or backslash in names and link targets written as a lowercase \\xHH escape and every other byte verbatim. Directories appear in strictly ascending order of their paths compared component by component as raw bytes, and the entries of a directory directly follow its line in ascending raw byte order of their names.",
 ["inputs","configurations"],
 "every tree with any legal byte sequence as names and targets, any enumeration order of the directories, every hash type and thread count",
 "only plain lowercase names occur in scanned fixtures; ordering conflicts such as 'a', 'a-b' and 'a/b' and non-UTF-8 names never do",
 [SC,WR,TW,"FORMAT.v1.rst"],
 [("name escaping",WR+": Display for Name"),("sorting of files and reverse-pushed subdirectories",SC),("line formatting",WR+", "+TW)],
 ["bytes given to the sink of v1::scan"])

p("C04","The footer authenticates exactly the lines of the index",
 "The last line of every completed index, from a scan or from the emitter, is the lowercase hex digest, under the header's hash type, of exactly the directory and entry lines as they were written between header and footer, followed by a newline. This holds whatever the threads, progress reporting, tree, or the sizes in which the sink accepts the bytes.",
 ["inputs","configurations","schedules"],
 "every tree and every emitter call sequence, all hash types, thread counts, progress on or off, sinks that accept any number of bytes per call",
 "fixed trees without progress reporting into a Vec, and one emitter run with one hash type",
 [WR,TW,PR,EM,HA],
 [("HashWriter feeds the digest with the bytes the sink accepted",WR+": HashWriter, "+EM+": HashWriter"),("get_hash / done / finish",WR+", "+TW+", "+PR+", "+EM)],
 ["bytes given to the sink"],
 [("running digest","digest of all lines written so far",WR+": HashWriter.digest")])

p("C05","Reproducible: the index is a function of the tree and the hash type only",
 "Scanning the same tree with the same hash type always yields byte-identical output. It does not depend on the number of threads, the interleaving of worker threads, the queue size, the order in which the file system enumerates entries, whether it reports entry types, progress reporting, timestamps and ownership, read or write chunking, other scans running in the same process, or whether thread support was compiled in.",
 ["schedules","configurations","inputs","histories"],
 "all pairs of runs over the same tree, over all worker interleavings and completion orders, thread counts 0..n, queue sizes, enumeration orders and process-wide concurrency",
 "the tests compare small fixed trees (at most 8 entries) with 0 and 4 threads, so the work queue never fills and workers are never reordered on purpose",
 [SC,WR,TW,PR,MO,CF],
 [("ordered queue of pending operations",TW+": queue, poll_queue, wait_queue"),("sorting before emission",SC)],
 ["bytes given to the sink over many runs"],
 [("queue of operations","head is the next line to write",TW+": ThreadedWriter.queue")])

p("C06","What is scanned is what the parser reads back",
 "Parsing the index of any scanned tree succeeds and yields, in order, exactly the header (hash type, block size) and one entry for every line, with paths and link targets byte-identical to those on disk (joined to their directory) and the same sizes, executable flags and digests. The same holds for every canonical index text, including other block sizes and raw non-UTF-8 names.",
 ["inputs"],
 "every canonical index: all legal name bytes including backslashes, text looking like escapes, control and high bytes; sizes up to the largest representable ones; all hash types and block sizes",
 "the parser is tested on a few hand-written files with one escape, and never on the scanner's own output",
 [PA,WR,"FORMAT.v1.rst"],
 [("unescape_hex inverts Name escaping",PA+": unescape_hex, "+WR+": Name"),("Entry::parse, parse_hashes",PA)],
 ["Parser::get_header, EntryIterator items"])

p("C07","Re-emitting a parsed index reproduces it byte for byte",
 "Feeding the entries parsed from any canonical index to the emitter, with the same hash type and block size, produces the identical file, footer and final newline included, for every hash type. It does so into every sink, however few bytes the sink accepts at a time, and every write error of the sink is returned to the caller.",
 ["inputs","configurations","fault_sequences"],
 "every canonical index, every hash type and block size, every sink chunking and every position of a sink error",
 "one emitter test with one hash type, four small files and a Vec as sink",
 [EM,PA,WR],
 [("Emitter methods and HashWriter",EM),("write_hash per hash type",EM+": HashTrait impls"),("hexlified hashes",PA+": Hexlified")],
 ["bytes given to the emitter's sink","results of emitter calls"])

p("C08","Hostile index bytes never crash, hang or exhaust memory",
 "For every byte sequence offered as an index, reading the header, iterating, seeking to any valid path, merging it with other indexes and extracting its footer hash return entries or errors: they never panic or abort, and iteration ends after at most one item per remaining line plus one. The memory used is bounded by a small multiple of the longest line, whatever sizes and block sizes the bytes claim.",
 ["inputs"],
 "every byte string as index file, every sequence of next/advance calls with valid paths, any number of merged indexes",
 "a handful of malformed rows, none with extreme numbers, odd block sizes, missing directories, or names with slashes; the behaviour after an error is never exercised",
 [PA,ME,RD],
 [("row parser with explicit errors",PA+": Entry::parse, parse_hashes, Header::parse"),("end of iteration",PA+": EntryIterator.exhausted"),("entry order comparison panics on invalid kinds",PA+": EntryKind::cmp")],
 ["results, panics, item counts and heap use of Parser, EntryIterator, MergedSignatures, get_hash"])

p("C09","A damaged or malformed index is never read as a complete one",
 "If an index is cut off at any byte, lacks its footer or final newline, has data after the footer, or has a line that violates the format (unknown entry type, bad size, too few, too many, short or non-hex digests, doubled or missing separators, an entry before any directory, a name that is not a plain file name), then reading it reports an error carrying the number of the offending line. Everything returned before the error equals the entries of the lines before it.",
 ["inputs","fault_sequences"],
 "every truncation point and every malformed variant of every index, read by next, by advance or through a merge",
 "about ten hand-written bad rows are tried one by one; truncation is tested at a single place and line numbers after seeking never are",
 [PA,ME],
 [("every line must end in newline",PA+": read_line"),("rows must be fully consumed, hash count must match",PA+": Entry::parse, parse_hashes"),("footer must be last",PA+": _parse_entry")],
 ["EntryIterator / MergedEntriesIterator items"])

p("C10","Entry order is a strict total order that matches the file order",
 "The comparison of entry kinds is a total order on valid absolute kinds (antisymmetric, transitive, total, and equal exactly for equal kinds) for paths of any bytes. Sorting the entries of any tree by it gives exactly the order in which a scan writes them.",
 ["inputs"],
 "all pairs and triples of valid directory and file kinds, including names that are prefixes of each other, contain bytes below '/', or are not UTF-8",
 "nine fixed ASCII kinds are compared pairwise",
 [PA,SC],
 [("Ord for EntryKind",PA+": EntryKind::cmp, partial_cmp"),("scan order",SC)],
 ["EntryKind::cmp / partial_cmp / eq results, order of lines of scanned indexes"])

p("C11","Seeking in an index finds exactly the wanted entry and skips nothing else",
 "On any ordered index and for any sequence of calls, advance(kind) returns the first not yet consumed entry equal to kind if there is one, and otherwise returns nothing and leaves the first entry greater than kind, and all after it, to be returned by later calls. next() and advance() may be mixed freely, and no entry is ever returned twice, skipped although not smaller than a sought kind, or reported with the wrong directory.",
 ["inputs","histories"],
 "every ordered index and every history of next/advance calls with present, absent, smaller, equal and repeated targets of both kinds",
 "four fixed call sequences on fixed indexes",
 [PA],
 [("row cache between calls",PA+": EntryIterator.current_row, advance, next"),("directory tracking",PA+": current_dir")],
 ["return values of EntryIterator::advance and next"],
 [("current_row","the row that was read but not consumed",PA+": EntryIterator")])

p("C12","Merging indexes conserves entries and groups equal paths",
 "Iterating over merged indexes yields groups in strictly ascending entry order; each group holds, in the order the indexes were given and under the right keys, exactly the entries of all indexes with that kind, so every entry of every index appears exactly once. Seeking in the merge returns per index what seeking in that index alone would, and may be mixed with iteration; indexes that differ in hash type or block size are refused with the list of the values found. An index that turns out to be damaged or unreadable gives under its key what it gives alone, its error included, and does not disturb the others.",
 ["inputs","histories","configurations"],
 "every number of ordered indexes, empty or overlapping in any way, all histories of next and advance on the merge, built from readers or from files",
 "two fixed two-file merges and two mismatching headers are tested; three or more indexes, ties not in the first position and mixed histories are not",
 [ME,PA],
 [("minimum search over peeked heads",ME+": MergedEntriesIterator::next"),("per-index peek and advance",ME+": PeekableEntryIterator"),("header agreement",ME+": MergedSignatures::new, check_same")],
 ["items of MergedEntriesIterator, results of advance, MergeError values"],
 [("head","entry peeked but not yet returned",ME+": PeekableEntryIterator")])

p("C13","File verification accepts the indexed content and nothing else",
 "For every file entry of an index, and for every digest list computed from content, checking a byte stream against the digests returns true exactly when the stream equals the original content, for any difference in bytes, length or order of blocks and for empty content. The verdict does not depend on how the stream splits its reads or on interrupted reads, and read errors are returned as errors.",
 ["inputs","fault_sequences"],
 "every content and every modification of it (bit flips, truncation, extension, swapped, dropped or repeated blocks), every hash type and block size, every read chunking and error position",
 "three wrong contents of at most seven bytes with a block size of four, one hash type, whole-slice reads",
 [PA,HA],
 [("block-wise comparison and end-of-file probe",PA+": Hashes::_check_file")],
 ["result of Hashes::check_file"])

p("C14","Digest lists computed from content equal those an index would carry",
 "Hashing a byte stream returns its exact length and exactly the digest list the format prescribes for that content, hash type and block size: ceil(length / block_size) digests, none for empty content, equal to the list parsed from a scan of a file with that content. Length, indexed access and iteration over the list agree with each other, and the result does not depend on read chunking or interrupted reads; read errors are returned.",
 ["inputs","fault_sequences"],
 "every content length including exact multiples of the block size and zero, every hash type and block size, every read chunking and error position",
 "two contents are hashed and only fed back to the library's own check, so surplus or wrong digests go unnoticed",
 [PA,HA],
 [("block loop of _hash_file",PA+": Hashes::_hash_file"),("hash_and_size",HA),("get / iter / len",PA+": Hashes")],
 ["(size, Hashes) returned by Hashes::hash_file"])

p("C15","The index identifier read from a file is its footer",
 "Extracting the hash of any complete index returns exactly the digest on its last line, for every hash type, file size and reader chunking. Anything that does not begin with a v1 header of a supported hash type and end with a well-formed footer line, including every truncated index, gives an error and never a panic or a wrong value.",
 ["inputs","fault_sequences"],
 "every complete index, every truncation or extension of one, arbitrary bytes, readers that return few bytes at a time, are interrupted or fail",
 "one fixed in-memory file is read",
 [RD,HT],
 [("header probe and seek to the last line",RD+": get_hash")],
 ["result of get_hash"])

p("C16","A failing output sink is always reported and leaves a clean prefix",
 "If the sink fails, or stops accepting bytes, at any point of a scan, the scan returns the write error (as an error of writing the index, wrapping the sink's own error) without panicking or hanging, with any thread count and with progress on or off. The bytes accepted so far are a prefix of the index a working sink would get, and interrupted or short writes are completed without loss, duplication or effect on the footer.",
 ["fault_sequences","schedules","configurations"],
 "every byte position of the first failure, every error kind, zero-length writes, arbitrary short-write and interruption patterns, all thread counts and hash types",
 "tests only write into a growing Vec",
 [WR,TW,PR,"src/error.rs"],
 [("map_err on every write",WR+", "+TW),("HashWriter counts only accepted bytes",WR+": HashWriter")],
 ["result of v1::scan, bytes the sink accepted"])

p("C17","Unreadable input makes the scan fail, never a silently smaller index",
 "If opening, listing, inspecting or reading any directory, file or symlink of the sources fails at any point, the scan returns an error of the matching kind (directory errors for directories, read errors for files and symlinks) that wraps the system's error. It never panics, hangs or reports success with entries, blocks or link targets missing or altered, whatever the number of threads; interrupted reads are retried transparently.",
 ["fault_sequences","schedules","configurations"],
 "every single failing system call of a scan and every error code, in every position and thread count, plus missing roots and descriptor exhaustion",
 "no test injects a failure or even scans a missing directory",
 [SC,WR,TW,"src/error.rs"],
 [("map_err per operation",SC+", "+WR+", "+TW),("errors travel through futures",TW+": poll_item")],
 ["result of v1::scan under injected libc failures"])

p("C18","A scan only reads, and only inside the source directories",
 "During a scan the library opens nothing for writing, changes nothing in the tree, never opens FIFOs, sockets or devices, and never reads data outside the source directories through a symlink, not even when a file or directory is exchanged for a symlink while the scan runs. Symlink cycles do not affect it.",
 ["inputs","schedules"],
 "every tree containing symlinks to files, directories, ancestors and outside objects and special files, and every moment at which an entry or one of its parents is replaced by a symlink",
 "no fixture contains a symlink or special file, and nothing changes during a test",
 [SC,WR,TW],
 [("handle-relative, no-follow opens",SC+": sub_dir, list_dir, "+WR+": open_file"),("type filter",SC)],
 ["every open/openat/readlink/stat call made by the library, with the object it resolved to","tree state before and after"])

p("C19","A scan or a read uses bounded memory, descriptors and look-ahead",
 "The heap used by scanning is bounded by the listings of the directories on the path being walked and by the queued entries with their digests, never by the contents of files or the size of the index, and the heap used by parsing or merging is bounded by the longest lines. Open descriptors during a scan stay within the depth of the tree times the number of sources, plus the queue limit and the number of threads; in threaded mode at most about the configured queue size of entries is outstanding; after a scan returns, successfully or not, all its descriptors and threads are released.",
 ["inputs","configurations","schedules"],
 "every tree shape (wide, deep, many files, huge files), every index length, every thread count and queue size, slow and fast workers, success and failure exits",
 "no test measures resources, and the fixtures are far below any limit",
 [SC,TW,WR,PA,ME],
 [("depth-first queue of directory handles",SC+": queue"),("queue limit and blocking wait",TW+": poll_queue, queue_limit"),("row-wise parsing",PA+": EntryIterator")],
 ["allocator counters, descriptor table, threads, entries listed versus lines written"],
 [("queue","operations whose line is not written yet",TW+": ThreadedWriter.queue")])

p("C20","A tree that changes during the scan gives an error or a well-formed index",
 "If files, directories or links are created, removed, renamed, resized, rewritten or exchanged for another type (FIFOs included) while they are scanned, the scan still terminates without panic and returns either an error or an index that is well-formed: correct footer, canonical order, digest count matching the recorded size. Entries that were not touched are recorded correctly, and nothing is recorded that never existed.",
 ["schedules","histories","inputs"],
 "every sequence of modifications placed between any two system calls of the scan, with any thread count",
 "the tests scan a tree at rest",
 [SC,WR,TW],
 [("size and mode taken from the open handle",WR+": add_file, "+TW+": add_file"),("loop over the size first recorded",WR+", "+TW)],
 ["result and output of v1::scan with modifications injected at system calls"])

p("C21","The command-line tool writes the complete index or fails",
 "With any valid arguments the index tool writes, to standard output or to the given file, exactly the bytes the library produces for the same directories and hash type, whatever the thread and progress options, and keeps progress output off that stream (and prints none if told so). It exits with status 0 only if the complete index was written and otherwise, on bad arguments, missing or unreadable directories, or output that cannot be stored completely, with a non-zero status and a message on standard error.",
 ["inputs","configurations","fault_sequences"],
 "every combination of options and directories, and every output that fails at any point (full device, size limit, closed pipe)",
 "the tool has no test at all",
 [BI,CF,MO,PR],
 [("argument parsing and output selection",BI+": run"),("exit status",BI+": main")],
 ["stdout, output file, stderr and exit status of the built tool"])

p("C22","No undefined behaviour or data race in any operation",
 "Scanning with worker threads, hashing, parsing, seeking, merging and emitting as done by the crate's own code are free of data races, invalid memory accesses, reads of uninitialised memory, strings that are not UTF-8 and other undefined behaviour for every input and interleaving, including error paths.",
 ["schedules","inputs","fault_sequences"],
 "every interleaving of the scanning thread with its workers, all inputs to the unchecked string conversions, and error exits with work still in flight",
 "tests run uninstrumented; a race or an invalid access need not change any result",
 [TW,HA,PA,WR],
 [("unchecked UTF-8 conversion of hex buffers",HA+", "+PA+": LowerHex"),("directory handles and futures shared with the pool",TW)],
 ["reports of ThreadSanitizer, AddressSanitizer and Miri"])

p("C23","Reading an index does not depend on how its bytes arrive",
 "Parsing, seeking, merging and re-reading an index give the same entries and errors for every way its reader splits the bytes into buffers, and interrupted reads are retried. A read error at any point is returned as an error with the underlying cause and is never taken for the end of the index.",
 ["inputs","fault_sequences"],
 "every index, every buffer split down to single bytes, every position of an interruption or I/O error",
 "all tests read from a memory buffer that delivers everything at once and never fails",
 [PA,ME],
 [("read_line via BufRead",PA+": read_line"),("probe for data after the footer",PA+": _parse_entry")],
 ["items of EntryIterator and MergedEntriesIterator over scripted readers"])
p("C24","The progress report is truthful and cannot harm the scan",
 "With the progress report on, a scan writes the same index and has the same result as with it off, whatever the state of the standard error (full, closed, broken, blocked for a while). Each interim report gives the numbers of directories, files and symlinks of some prefix of the index, never going back, not faster than the interval allows, and reports do come while a long scan proceeds. A final report appears exactly when the scan succeeds, with the totals of the index, the first digits of its identifier and the time the scan took. With the report off nothing is written to the standard error.",
 ["inputs","configurations","fault_sequences"],
 "every tree, every duration of every step of the scan, every state of the standard error, every scan that fails at any point",
 "no test turns the report on; what is printed depends on the clock",
 [PR,MO,CF],
 [("counters and print interval",PR+": check_print"),("final report",PR+": done"),("choice of the reporting writer",MO+": scan")],
 ["standard error, sink and result of v1::scan on a controlled clock"],
 [("counters","directories, files and symlinks handed on so far",PR+": Progress")])

p("C25","The documented shell procedure gives the same index",
 "For every tree within the documented limits of the shell procedure (names and targets without characters that need escaping), hash.sh, run with the name, command and lengths of a hash type, prints byte for byte the index which a scan with that hash type writes, and each digest and the identifier of a scanned index can be confirmed by standard tools (dd, sha512-256, b2sum) working on the lines of the index and the files.",
 ["inputs","configurations"],
 "every tree of plain names, any sizes, any order of siblings, any entry kinds, each hash type with a shell tool",
 "hash.sh is run by no test",
 [SC,WR,TW,HA,HT,"hash.sh","FORMAT.v1.rst"],
 [("header with hash name and block size",WR+": Display"),("order of directories and entries",SC),("hash of blocks and footer",HA)],
 ["bytes given to the sink of v1::scan","standard output of hash.sh"])

p("C26","Operations do not influence each other",
 "The result of an operation (a scan, a parse, a seek, a merge, an emission, a hash, a verification, an identifier) depends on its own arguments only: it is the same when other operations ran before it in the process, successfully, with an error, abandoned half way or ended by a panic of a sink or reader; when several parsers, merges, emitters and scans are alive and are advanced in turn; when it runs inside the reader or sink of another; and when any number of them run on different threads, with shared configurations.",
 ["histories","schedules","inputs"],
 "every history and every interleaving of any operations on any inputs",
 "each test runs one operation alone in a fresh state",
 [SC,WR,TW,HA,PA,EM,ME,CF],
 [("state kept per writer, parser, merger, emitter",WR+", "+TW+", "+PA+", "+ME+", "+EM),("thread pool per scan",TW)],
 ["results of all public operations in varied histories and on concurrent threads"])

p("C27","Equal index and identifier exactly for equal covered contents",
 "Two source sets have the same index, and the same identifier under get_hash, exactly if what an index covers is the same: the paths of directories, and for each regular file its path, executable bit (of the owner) and bytes, and for each symlink its path and target. Any single change of these, whatever the names, sizes and targets, changes both. Changing anything else (times, owners, other permission bits, hard links, special files, order of creation, inode numbers, the location of the source, the distribution of the tree over several sources at the same prefix) changes neither.",
 ["inputs","configurations"],
 "every pair of trees, all hash types, all configurations",
 "no test compares the indexes of two different trees",
 [SC,WR,TW,HA,PA],
 [("what enters an entry line",WR+", "+TW),("identifier from footer",PA+": get_hash")],
 ["bytes given to the sink of v1::scan","result of get_hash"])

p("C28","Two indexes tell exactly what differs between two trees",
 "Merging the indexes of two trees groups their entries such that a path comes with an entry of both exactly if both have it, with equal entries exactly if the covered content is equal; checking a file of one tree with the hashes of the other index succeeds exactly if the bytes are equal; looking up an entry's key in the other index finds it exactly if it is there. Copying what these tell to differ, and removing what is only in the first, turns the first tree into one whose index is that of the second.",
 ["inputs","configurations","histories"],
 "every pair of trees, all hash types and configurations of the two scans (blake3 with worker threads only, as K1 concerns it otherwise)",
 "the tests merge fixed texts and never compare two scanned trees",
 [ME,PA,HA,SC],
 [("grouping of equal keys",ME),("Hashes::check_file",HA+", "+PA),("advance",PA)],
 ["groups of MergedEntriesIterator, results of check_file and advance on indexes of real scans, and a scan of the synchronised tree"])

p("C29","The work of an operation is in proportion to its input",
 "A scan opens and lists each directory once per source, reads the bytes of each file once and each link once, and needs a bounded number of other system calls for every entry, whether it succeeds or fails. The processor time, allocations and system calls of scanning, hashing, verifying, parsing, seeking (found or not), merging, emitting and of reading damaged lines grow in proportion to (at most with a logarithmic factor over) the numbers of entries, directories, links, sources, digests and bytes of names, paths and targets they are given; reading the identifier does not depend on the size of the index.",
 ["inputs","configurations"],
 "every tree, index and stream, of every shape, and every number of calls",
 "the tests use inputs of a few entries on which nothing can be seen to grow",
 [SC,WR,TW,HA,PA,EM,ME,"src/read.rs"],
 [("one listing and one descriptor per directory",SC),("one pass over a file",HA+", "+WR+", "+TW),("streaming of lines",PA+", "+ME),("seek to the footer","src/read.rs")],
 ["libc calls of v1::scan, counts of allocations and processor time of public operations"])
p("C30","Settings mean what they say, in whatever way they are made",
 "Whatever sequence of calls made a ScannerConfig (setters in any order, repeated, on a config that was used before), a scan uses the last value of each setting, and the documented default of one that was never set: the header names the hash type chosen and the block size, and the digests are of that type; all sources are covered and entries of equal path appear in the order in which their sources were added; a report is written to standard error only if asked for; with threads set to n files are hashed by n threads at once and never by more, without threads all is done by the caller. A scan does not change its config. The names sha512/256, blake2b/256 and blake3/256 stand for their hash types wherever a name is read or printed, and no other name is accepted.",
 ["inputs","configurations","histories"],
 "every sequence of calls of the setters and scans, every set of sources, every string as a name",
 "the tests set each option once on a fresh config, and cannot see which threads do the work",
 [CF,HT,MO,TW,SC],
 [("setters and defaults",CF),("choice of hash and writer",MO+": add_hash, add_threads, add_progress"),("worker pool",TW+": CpuPool::new"),("names",HT)],
 ["bytes given to the sink of v1::scan, standard error, threads of the process and their libc calls during a scan, HashType::from_str and Display"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
