"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, level, technique, note, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, level=level, technique=technique, note=note, state=state)

EX = "exploration"
FE = "fault_enumeration"
L, S, F, PK, U, B = ("gitdb/db/loose.py", "gitdb/stream.py", "gitdb/fun.py", "gitdb/pack.py", "gitdb/util.py", "gitdb/base.py")
DB, DP, DM, DR, DG = ("gitdb/db/base.py", "gitdb/db/pack.py", "gitdb/db/mem.py", "gitdb/db/ref.py", "gitdb/db/git.py")

PROPS = [
P("C01", "Stored objects get git's id and read back byte for byte",
  "Storing content of any of the four object types and any size into a loose, git or memory database yields the id SHA-1(\"<type> <size>\\0<content>\"), and from then on existence, info and stream for that id report that type, that size and exactly those bytes. On disk this also holds for a freshly opened database, and the object is at its two-level hex path as a zlib stream of header plus content that git itself accepts. Storing the same object again yields the same id and one object. Only the announced number of bytes is taken from the source, whatever it holds behind them.",
  ["inputs", "histories"], "every object type, every content (size, compressibility, bytes that look like headers) and every way the source stream splits it",
  "The tests store one 16-byte text and 250 four-byte blobs; header/size/chunk boundaries (8192, 4096000, multiples of them), incompressible data and short-reading sources are never reached.",
  [L, DM, DG, F, S], [("store", "gitdb/db/loose.py:LooseObjectDB.store"), ("write_object / stream_copy", F), ("header parsing", "gitdb/stream.py:DecompressMemMapReader")],
  ["return of store()", "has_object/info/stream of the same and a fresh database", "bytes of the object file"], EX,
  "runtime monitor: reference-model (dict of git objects) checked online against every store/has/info/stream event",
  "Held on the generated histories only; oracle is an independent hashlib/zlib model, cross-checked with git cat-file."),
P("C02", "Object streams deliver exact content under any read pattern",
  "For every readable object (loose, in memory, whole in a pack, delta-compressed in a pack) any sequence of reads, each with a positive size or without one, returns consecutive pieces of the object: a sized read returns exactly min(size, remaining) bytes, a read without size everything that remains, and nothing is returned once the content is exhausted. Rewinding the stream to its start at any point makes it deliver the same content again from the first byte.",
  ["inputs", "histories"], "every object, every compression level and block structure of its compressed form, every sequence of reads and rewinds",
  "The tests read each stream in ten equal steps and only rewind streams read to the end; behaviour depends on how compressed windows, header buffer and read sizes line up.",
  [S, B, DM, PK], [("DecompressMemMapReader.read/seek", S), ("DeltaApplyReader.read/seek", S)],
  ["every read() return value", "stream state after rewind"], EX,
  "runtime monitor: shadow cursor over the true content, asserted at every read/seek event",
  "Held on the read patterns generated; sizes, compressors and patterns are sampled around every internal buffer boundary."),
P("C03", "Every object of a valid pack resolves as git resolves it",
  "For every valid version-2 pack with a version-1 or version-2 index, every object in it - stored whole, as offset delta, as reference delta, or through chains mixing both, with 32- or 64-bit recorded offsets, and also when the file is larger than one memory-mapping window - is found by its id and reports, through info and through stream, the type, size and content git reports for it. Enumerating infos or streams of the pack yields each of its objects exactly once.",
  ["inputs", "configurations"], "every valid pack/index pair: object mix, delta structure and order, index version, offset width, mapping window size",
  "Three fixture packs written by one old git exercise only the delta layouts that git chose; mixed reference/offset chains, 64-bit offsets (skipped as 'not implemented') and multi-window packs are never read.",
  [PK, DP, S, F, U], [("PackEntity._object, collect_streams", PK), ("pack_object_at", PK), ("sliding windows", U)],
  ["info()/stream() of PackedDB and PackEntity", "info_iter/stream_iter"], EX,
  "runtime monitor: every answer compared with an independent pack reader and with git cat-file",
  "Held on the packs generated (own writer and git); multi-window packs are driven by shrinking the mapping window, plus one real >1 GiB sparse pack in the thorough tier."),
P("C04", "Delta resolution follows the delta instructions exactly",
  "For every base object and every chain of well-formed deltas on it, the resolved stream has the type of the base, the size the last delta declares and exactly the bytes that executing the copy and insert instructions defines, whatever encodings of offsets, lengths (including the implicit 65536) and headers the deltas use. A malformed delta - reserved instruction, copy outside its base, truncated instruction, or declared base or result size that does not match - raises an error and never yields content.",
  ["inputs"], "every base, chain length, instruction sequence and encoding, and every malformation of one",
  "Tests only see deltas git emitted; they contain no implicit-size copies, non-canonical encodings, empty results, shrinking/growing chains or malformed streams.",
  [F, S, PK], [("apply_delta_data", F), ("DeltaApplyReader", S), ("msb_size", F)],
  ["content, size, type of resolved streams", "exceptions"], EX,
  "runtime monitor: online comparison with a reference delta interpreter on generated instruction streams and mutations",
  "Held on the generated chains; the reference interpreter is cross-checked against git in C03/C21 packs."),
P("C05", "Pack index lookups are exact",
  "For every version-1 or version-2 pack index, looking up an id returns the position of that id if the index lists it and nothing otherwise, for every id. The number of entries, and each position's id, offset (32- or 64-bit), CRC and entry tuple, the list of offsets and both trailing checksums, are exactly what the file records.",
  ["inputs"], "every index: number and distribution of ids over first bytes, runs of near-equal ids, empty index, offset widths; every queried id, present or absent",
  "The tests look up the ids of three fixture indices only; neighbours of present ids, absent ids in every bucket, crowded or empty buckets and 64-bit offset tables are not tried.",
  [PK], [("PackIndexFile.sha_to_index", PK), ("fanout and offset tables", PK)],
  ["sha_to_index/entry/offset/sha/crc/offsets/size/checksums"], EX,
  "runtime monitor: every lookup checked against the table the index was generated from",
  "Held on generated indices; near-miss queries are derived from every listed id."),
P("C06", "Written packs are valid git packs of exactly the given objects",
  "For every sequence of distinct objects, the pack and index produced by the pack writer are a valid version-2 pack and index (signature, counts, headers, CRCs, sorted ids, offsets, trailing checksums) that git accepts and that contain exactly the given objects with their ids, types and contents; the returned checksums are those of the files. The on-disk variant names both files pack-<40 hex digits of the pack checksum> with .pack and .idx, and returns a usable pack; an announced count larger than the number of objects given, or an object size different from its data, is reported as an error.",
  ["inputs", "configurations"], "every object sequence, source database, source stream splitting, compression level, with and without index, announced counts",
  "The tests write one pack from the fixtures and never hand it to git; empty objects, multi-chunk objects, 64-bit offsets and file names are not checked.",
  [PK, F, S], [("PackEntity.write_pack/create", PK), ("IndexWriter.write", PK), ("write_stream_to_pack", PK), ("create_pack_object_header", F)],
  ["bytes passed to the write functions", "files created", "git index-pack / verify-pack verdict"], EX,
  "runtime monitor: emitted byte stream parsed by an independent pack/index checker; git index-pack as second oracle",
  "Held on the generated sequences; 64-bit offsets are reached by feeding the index writer recorded offsets."),
P("C07", "Abbreviated ids resolve to the unique match or report why not",
  "For every database that offers prefix resolution (loose, packed, git, alternates) and every hexadecimal prefix of at least four digits, even or odd, resolution returns the full id if exactly one stored object starts with it, raises AmbiguousObjectName if several distinct ones do, and BadObject if none does. The answer depends only on the set of stored ids, not on whether they are loose, in one pack, in several packs, in alternates, or in several of these at once.",
  ["inputs", "configurations"], "every set of ids (including ones sharing long prefixes), every distribution over sources, every prefix",
  "The tests resolve prefixes of random ids, which are practically never ambiguous ('in our pack, there is no ambiguous ...').",
  [PK, DP, L, DB, F], [("partial_sha_to_index", PK), ("partial_to_complete_sha", DP), ("partial_to_complete_sha_hex", "gitdb/db/base.py, gitdb/db/loose.py"), ("is_equal_canonical_sha", F)],
  ["return value or exception of every prefix query"], EX,
  "runtime monitor: every resolution compared with a prefix scan over the known id set",
  "Held on generated id sets with engineered prefix collisions at every digit."),
P("C08", "A database answers as the union of its sources, consistently",
  "For every database (loose, packed, memory, git with packs, loose objects and alternates, alternates of alternates; alternates given as absolute or relative paths of any characters, through links, possibly referring to each other in cycles; directories of loose objects may be links; in an interpreter started with any options and locale) the set of ids it has is exactly the union of what its sources hold: membership tests in both forms, info and stream succeed with agreeing answers for ids in it, and are False or raise BadObject for every other 20-byte id. Id enumeration covers that set and nothing else, its length equals the reported size, one which is under way while objects are stored still yields everything that was there, and an object held by several sources reads the same as from any one of them.",
  ["inputs", "configurations", "histories"], "every distribution of objects over packs, loose files and alternates and every sequence of queries and stores",
  "The tests query one repository with two sources and one alternates file; overlaps, many packs with lookup reordering, absent ids and interleaved stores are not covered.",
  [DB, DG, DR, DP, L, DM], [("CompoundDB._db_query", DB), ("PackedDB lookup priority", DP), ("alternates", DR)],
  ["has_object/in/info/stream/size/sha_iter of each database object"], EX,
  "runtime monitor: set model of the repository checked online at each query event",
  "Held on generated repositories; quoted paths in alternates files are not covered, nor the number of times an object is enumerated where alternates form cycles."),
P("C09", "After a forced refresh answers reflect what is on disk",
  "Whatever external changes are made to an open git, packed or alternates database - packs added, removed, replaced under their name or repaired, loose objects packed, added or deleted, alternates or the pack directory appearing, changing or disappearing - after a forced cache update all queries answer as a newly opened database would. Objects the database stores itself are visible to it at once without an update.",
  ["histories"], "every sequence of external changes, stores, queries and updates on one open database",
  "The tests rename one pack away and back and edit one alternates file; no query history precedes the change, so caches filled by earlier queries are never exercised.",
  [DB, DP, DR, L, DG], [("update_cache", "gitdb/db/*.py"), ("CompoundDB._db_cache", DB), ("loose path cache", L)],
  ["all query results after update_cache(force=True)"], EX,
  "runtime monitor: history checker - after every update event the open database is compared with the model of the disk and a fresh database",
  "Held on generated histories; a pack repaired in place gets another size or time stamp."),
P("C10", "A killed writer never leaves a partial loose object visible",
  "If the process storing an object dies at any point, then for every other process each object, including the one being stored, is afterwards either absent or complete and correct, and all objects stored before remain readable. Enumeration and lookups of the directory still work, and storing the object again succeeds.",
  ["crash_points"], "every file-system call of a store (before it, after it, and half-way through each write) and every line of the storing code, for new and already existing objects",
  "No test kills a process; atomicity depends on the order of file-system operations, which the tests' end states cannot show.",
  [L, S], [("temporary file, rename, chmod", "gitdb/db/loose.py:LooseObjectDB.store")],
  ["directory state after the kill", "fresh database on it"], FE,
  "runtime monitor: crash injection at every file-system call (LD_PRELOAD shim) and every executed line, offline check of the surviving directory",
  "Process death only (no power loss: the library does not fsync). Every fs call of the driven stores is enumerated, not every content."),
P("C11", "A failed store leaves nothing behind and loses nothing",
  "If storing an object fails - the source raises or ends before the announced size, or any file-system operation fails or writes only part of the data - the call raises an error and no object with incomplete or wrong content becomes visible, no temporary file and no open descriptor remains, nothing involved is kept in memory, and earlier objects are intact. A store that returns normally has stored the complete object even if individual reads or writes were short, and the database stays usable after the fault is gone.",
  ["fault_sequences"], "every file-system call of a store failing with ENOSPC/EIO/EACCES or transferring less than asked, every position at which the source raises, ends early or returns short reads; raw and normal stores",
  "The tests inject no fault at all; the only error path executed is none.",
  [L, S, F], [("error handling around the temporary file", L), ("FDStream/FDCompressedSha1Writer.write/close", S), ("stream_copy", F)],
  ["exception or return", "directory listing", "descriptor table", "fresh database"], FE,
  "runtime monitor: fault injection at every file-system call (LD_PRELOAD shim) and every source read; conservation checks after each",
  "Failures of unlink (cleanup itself failing) are exempt from the no-leftover clause."),
P("C12", "Concurrent writers and readers of a loose database do not interfere",
  "When several threads or processes store objects into one loose database directory at the same time, including the same object, every store returns the right id without error, and afterwards every stored object is complete and nothing else remains. A reader running at the same time sees each object either not at all or completely, and an object once seen never disappears.",
  ["schedules"], "every interleaving of the file-system operations of the writers and readers",
  "All tests are single-threaded and single-process.",
  [L, U], [("mkstemp + rename", L), ("isfile/rename race", L)],
  ["call/return of each store and read with timestamps", "interleaving of fs calls", "final directory"], EX,
  "runtime monitor: schedule-controlled and delay-injected multi-process/thread histories, checked for loss, partial reads and disappearance",
  "Interleavings at file-system-call granularity are forced by a shim; the numbers of distinct ones observed are in the evidence."),
P("C13", "Pack creation is all or nothing",
  "If creating an on-disk pack fails (an object source raises, a count or size mismatch, or any file-system call fails or is cut short) an error is raised, no pack or index with incomplete content carries a final pack name, and no temporary file or descriptor remains. If the process dies at any point, the directory can still be opened, everything readable before is readable, and the new pack's objects are either all or not at all available.",
  ["crash_points", "fault_sequences"], "every file-system call of pack creation killed, failed or shortened; every failing object of the sequence",
  "Tests only create packs successfully and never look at the directory in between.",
  [PK, DP], [("PackEntity.create", PK), ("pack discovery", DP)],
  ["directory after failure/kill", "fresh packed and git database on it"], FE,
  "runtime monitor: kill/fault injection at every file-system call of create, offline check of the surviving directory",
  "Process death only. Failures of unlink/close during clean-up are exempt from the no-leftover clause."),
P("C14", "Locked files are exclusive and replaced atomically",
  "At any time at most one holder has a given file locked, others' attempts fail without disturbing holder or file; every observer sees the file's complete old or complete new content. A commit installs exactly what was written, a rollback, deletion of the holder or failed open leaves the file unchanged, each releases the lock and descriptor exactly once, and repeated commit or rollback has no effect.",
  ["schedules", "histories", "crash_points"], "every sequence of open/write/commit/rollback/drop by competing holders, every interleaving of their file-system calls, death of a holder at any call",
  "One test runs one sequence with two holders in one thread.",
  [U, S], [("LockedFD", U)], ["file content seen by observers", "lock file", "return/exception of each call", "descriptor table"], EX,
  "runtime monitor: trace checker for mutual exclusion and old-or-new content over random histories, forced interleavings and kills",
  "After a kill the lock file may remain (that is the protocol); only old-or-new content is demanded then."),
P("C15", "Stream verification accepts exactly the intact objects",
  "For every object of an intact pack, verification by content hash and (version-2 index) by CRC returns true. If any byte of the object's packed representation, of its recorded CRC or of its recorded id is changed, the corresponding verification never returns true - it returns false or raises - while the verification of objects that do not depend on the changed bytes still returns true.",
  ["inputs", "fault_sequences"], "every object of every pack (whole and delta, first and last, 32- and 64-bit offsets, larger than a mapping window) and every byte changed",
  "Tests verify intact packs only; a verifier that always says true would pass them.",
  [PK], [("PackEntity.is_valid_stream", PK), ("offset map", PK)], ["is_valid_stream results in both modes"], EX,
  "runtime monitor: verifier verdicts compared with the known damage (bit flips per region of each entry)",
  "Changed bytes that leave the decoded object identical (zlib padding/levels) are judged only in CRC mode."),
P("C16", "Hashing writers digest exactly what they emit",
  "For every sequence of writes, each hashing output stream returns the length it was given where it reports one, and its digest is the SHA-1 of the concatenated data so far, available at any time in binary and hex. The compressing ones emit a zlib stream that decompresses to exactly that data once closed, the forwarding one passes on exactly the same bytes in order, and the descriptor-backed one closes its descriptor exactly once.",
  ["inputs", "histories"], "every data and every way of splitting it into writes, digest queries in between",
  "The tests make a single write per writer.", [S], [("Sha1Writer family", S)],
  ["write/sha return values", "bytes emitted"], EX, "runtime monitor: shadow digest and buffer compared at every writer event",
  "Held on generated write sequences."),
P("C17", "Redirected stores touch no disk and can be replayed verbatim",
  "While an output stream is set, storing computes the same id but creates, changes and removes nothing below the database root, and the stream receives the object. Compressed object data captured this way or taken from another database, stored under its id, becomes readable as exactly that object, and the previous stream setting is returned and restored correctly.",
  ["histories", "inputs"], "every interleaving of redirected, verbatim and ordinary stores over several databases and objects",
  "One object is redirected in one test, and its bytes are not checked.", [L, DB, DM, DG, S], [("set_ostream/ostream", DB), ("verbatim store", L)],
  ["file-system mutations below the root", "captured bytes", "queries afterwards"], EX,
  "runtime monitor: fs-mutation log (shim/audit) and model check over generated histories of set_ostream/store",
  "Held on generated histories."),
P("C18", "Memory-to-database transfer copies exactly the missing objects",
  "Copying ids from a memory database into another database stores exactly those not yet present there, returns how many that were, and leaves every object of the target equal to the source's, with nothing else added and existing ones untouched; an id the memory database lacks raises BadObject. The memory database itself keeps all its objects readable throughout.",
  ["inputs", "histories"], "every set of objects, every overlap with the target (loose, git with packs/alternates, memory), repeated and partial transfers",
  "One test copies everything once into one empty loose database.", [DM, L], [("MemoryDB.stream_copy", DM)],
  ["return counts", "target contents before/after"], EX, "runtime monitor: conservation check (copied + present = requested) over generated transfers",
  "Held on generated transfers."),
P("C19", "Streaming keeps memory bounded whatever the object size",
  "Storing an object from a stream, copying it between databases, writing it into a pack, and reading a loose or whole-packed object in pieces need memory bounded by the chunk or read size, not by the object size, for compressible and incompressible data alike. Opening a stream or asking for info does not read the object's content.",
  ["inputs"], "every object size and compressibility, every read size",
  "The performance tests stream 50 MB but measure only time.", [S, F, L, PK], [("window logic of DecompressMemMapReader.read", S), ("stream_copy chunking", F)],
  ["peak traced allocation per operation", "bytes pulled from the source/compressed input"], EX,
  "runtime monitor: allocation peaks and source-consumption recorded per operation, compared with size-independent bounds",
  "Peaks measured by tracemalloc (Python-level allocations); bounds are several times the value observed on the current tree. Delta objects are excluded (documented to be materialised)."),
P("C20", "Descriptors and mappings are released",
  "After any sequence of successful and failing loose reads, stores and pack operations, once the returned streams are dropped the process holds no descriptor and no mapping of any loose or temporary object file and no buffer of a resolved delta. Reading from packs holds at most one descriptor and one mapping per window of a pack or index file however many objects are read or lookups fail, and these disappear when the databases are dropped and the shared memory manager is asked to collect.",
  ["histories"], "every sequence of operations, orders of dropping streams and failing lookups or corrupt objects among them",
  "CI runs with 48 descriptors, which catches gross leaks on the success path only.", [S, L, U, PK, DP], [("close_on_deletion", S), ("file_contents_ro_filepath", U), ("shared memory manager", U)],
  ["/proc/self/fd and /proc/self/maps before and after"], EX, "runtime monitor: descriptor/mapping conservation sampled around generated operation histories",
  "CPython reference counting is assumed (collection is forced before sampling)."),
P("C21", "Sequential pack iteration visits every entry once, with exact bounds",
  "Iterating a pack file from its start, or from the offset of any entry, yields every following entry exactly once in file order with its true offset, type, declared size, delta reference and raw (undeltified) content, and then ends. This needs no index and holds for every valid pack, including empty objects and empty packs, and leaves each yielded stream readable from its start.",
  ["inputs"], "every valid pack: entry types, sizes (zero included), compression levels and block structures, start offsets",
  "The tests iterate the three fixtures, which contain no empty object and one compressor's output.", [PK, S], [("PackFile._iter_objects", PK), ("compressed_bytes_read", S)],
  ["sequence of yielded entries"], EX, "runtime monitor: yielded trace compared with the generator's entry table, with a step budget instead of a clock",
  "Held on generated packs; a hang is reported via a generous watchdog."),
P("C22", "Stored data is immutable and queries write nothing",
  "No operation other than storing or creating a pack creates, changes, renames or removes anything in a database directory; a store adds at most the object's own file and its directory. Files of existing objects and packs are never rewritten, replaced or removed by any later operation, storing the same object again included, and new object files are created read-only.",
  ["histories"], "every history of queries, stores, re-stores, redirects, updates and pack creations",
  "The tests never compare the directory before and after.", [L, DB, DP, PK], [("isfile check before rename", L), ("new_objects_mode", L)],
  ["file-system mutation log", "inode, mtime, mode and bytes of every file before/after"], EX,
  "runtime monitor: directory snapshots and fs-call log compared around every operation of generated histories",
  "Object identity of files is by inode, bytes and mode."),
P("C23", "Open streams are independent of each other and of later operations",
  "Streams obtained from a database, for the same or different objects, deliver their full exact content however their reads are interleaved with each other, with lookups, stores, cache updates and the deletion or repacking of the underlying files (pack files that fit one mapping window, for deletion). Obtaining an info or a stream never changes the position of another stream. A stream may as well be read on in a forked process, where it continues at its position, without effect on the parent's.",
  ["histories", "schedules"], "every interleaving of reads over several open streams and other operations, for all database kinds",
  "The tests read one stream at a time.", [DM, PK, S, L, U], [("per-stream state", S), ("shared pack cursor", PK), ("MemoryDB cached streams", DM)],
  ["every read() of every open stream"], EX, "runtime monitor: one shadow cursor per open stream over randomly interleaved single-threaded histories",
  "Single-threaded interleavings (the mapping library is documented as not thread-safe); loose streams also across threads in C12."),
P("C24", "Damaged data never reads as a complete object",
  "If the stored form of an object is truncated, emptied or garbled such that its announced content cannot be decompressed from it, then querying or reading it raises an error or reports it missing - it never ends early without an error, never returns more bytes than the announced size and never hangs. Other objects remain readable; also when a pack or index file is emptied, cut off within its header or has a wrong signature or version, the objects stored elsewhere than in that pack stay readable.",
  ["inputs", "fault_sequences"], "every truncation point and every flipped byte of a loose file or pack entry, for every read pattern",
  "No test reads damaged data.", [S, L, PK, U, F], [("end-of-input handling", "gitdb/stream.py:DecompressMemMapReader.read"), ("_map_loose_object", L)],
  ["outcome of info/stream/read on damaged files"], EX, "runtime monitor: damaged copies of objects driven through all read paths; outcome classified by a zlib reference",
  "Damage that still decompresses to the announced length is not judged here (see C15)."),
P("C25", "Object headers encode and decode losslessly for every size",
  "For every object type and every size, the pack entry header and the loose header produced are byte for byte git's, and parsing them returns the same type and size and the exact position at which data starts, whatever bytes follow. Variable-length sizes in deltas parse to the encoded value at any position in the buffer.",
  ["inputs"], "every type, every size from 0 to beyond 2^32 and every alignment of the 4/7-bit groups, any trailing bytes",
  "Only sizes of the fixtures' objects occur in tests.", [F, S], [("create_pack_object_header / pack_object_header_info", F), ("loose_object_header / loose_object_header_info", F), ("msb_size", F)],
  ["encoded bytes", "decoded tuples"], EX, "runtime monitor: round trips compared with an independent encoder at every bit-group boundary",
  "All sizes within 2 of every power of two up to 2^62 plus random ones."),
P("C26", "Result and input objects describe the object truthfully",
  "Every info and stream object returned by any query - by id, by index position, by iteration, from loose, packed, git and memory databases - carries the id asked for in binary and as 40 lower-case hex digits, the object's type as name and as git's type number, and its size, through attributes and tuple positions alike; objects describing pack entries carry offset, entry type, stored size and delta reference (distance or base id) the same way. A BadObject error names the id asked for, and a record of an object which is invalid carries its id and the error. An input stream keeps what it was given and what is set on it, reads from its source, and a store returns that same object with only the id set.",
  ["inputs", "histories"], "every object, every query form that returns it, and every sequence of assignments to an input stream",
  "The tests construct a few records by hand and never compare those the queries return field by field.",
  [B, PK, L, DM], [("OInfo, OStream, OPackInfo, ODeltaPackStream, IStream", B), ("PackEntity._object", PK), ("pack_object_at", PK)],
  ["fields of every returned record", "text of raised errors"], EX,
  "runtime monitor: every record returned by generated query sequences is compared field by field with the object model",
  "Held for the generated objects and query forms; the size position of unresolved delta streams is lazily determined and not judged."),
P("C27", "File, memory and id helpers are exact",
  "The whole-file helpers (mapped or read, random access or stream), the sliding buffer over a file of any number of windows, descriptor streams and scratch memory deliver exactly the bytes of the file as it is when they are created (also if it was replaced since an earlier use), or those written before, for every non-empty content, slice and sequence of reads, writes and seeks - also where memory mapping fails and reads are short - and leave no descriptor or mapping behind once dropped. Conversions between binary and hexadecimal ids are exact inverses and leave already converted ids alone, and lazily determined attributes are determined once.",
  ["inputs", "configurations"], "every content, slice, read/write/seek sequence and option, with memory mapping available or failing",
  "The tests map one small file and never read parts of it or run without memory mapping.",
  [U, S], [("file_contents_ro, sliding_ro_buffer, allocate_memory, to_hex_sha", U), ("FDStream", S), ("LazyMixin", U)],
  ["return values of the helpers", "open descriptors and mappings"], EX,
  "runtime monitor: helpers driven by random access sequences against a byte-array model, with injected mapping failures and descriptor audit",
  "Held for the generated contents up to about 1 MB."),
P("C28", "An unforced refresh notices and reports every dated change",
  "If packs, alternates or the pack directory of an open git, packed or alternates database change and the changed directories get a newer time stamp, an update without force makes all queries answer as a newly opened database would and returns a true value; a packed database whose directory did not change returns False and keeps its packs. Before the update, objects whose files are all where they were are still found. A pack that is added or removed while an update runs makes neither that update fail nor the next one miss it.",
  ["histories", "schedules"], "every history of external changes between updates, and every point of a running update at which one happens",
  "The tests force updates of an unchanged directory or change an alternates file once; nothing changes while an update runs.",
  [DP, DB, DG, DR], [("PackedDB.update_cache", DP), ("CompoundDB.update_cache", DB), ("GitDB.update_cache", DG), ("ReferenceDB.update_cache", DR)],
  ["return value of update_cache()", "all queries after it", "database open at the time of the change"], EX,
  "runtime monitor: reference model of the disk compared online after every update; changes injected at every executed line of a running update",
  "Time stamps are set explicitly, so that every change has a newer one; pack removal means removal of the .pack and .idx file."),
P("C29", "A failure to read is never taken for absence",
  "If opening, listing or memory-mapping files below the objects directory fails for another reason than that they do not exist (too many open files, out of memory, input/output error) while a loose, packed or git database, also one that serves as alternate and is already open, executes a query or a refresh, then the query either answers right or raises an error other than BadObject and AmbiguousObjectName; it never reports an object missing and never enumerates less. Once the cause is gone the same database answers every query right, and the next refresh, forced or not, picks up what the failed one did not.",
  ["fault_sequences", "histories"], "every query and refresh, cold or with caches filled, and every one of its file-system calls that fails, alone or with all that follow",
  "No test makes a file-system call fail.",
  [DP, L, PK, U], [("PackedDB._set_cache_, update_cache", DP), ("LooseObjectDB._map_loose_object, sha_iter", L), ("PackIndexFile/PackFile cursors", PK)],
  ["answer or error of the query", "answers after the fault"], FE,
  "runtime monitor with fault injection: an LD_PRELOAD shim makes the k-th open, opendir or mmap of a query fail; answers compared with the model during and after",
  "Failing stat calls and alternates that are unreadable when looked for (documented to be left out) are not included."),
P("C30", "Threads sharing a database answer as if each were alone",
  "If several threads use one loose, packed, git, reference or memory database or pack object - just opened or already used - or different ones on the same files, then membership, info, opening and reading one's own streams, enumeration, size and abbreviation queries of each answer for objects present throughout exactly as if that thread were alone, also while another thread triggers the first load of packs, alternates or indices, a re-sorting of the packs or an update of the caches; an update made by one thread is not lost, nor partly undone, through a query, first load or update of another that was under way. Objects stored by a thread meanwhile are stored exactly as if it were alone, also into an output stream that is set and also if other threads store into the same loose, git or memory database. A process forked while another thread is at work on the database, and its parent, go on as if alone.",
  ["schedules", "histories"], "every point of one operation at which another thread runs one, for every pair of operations and kind of database",
  "The tests use every database object from one thread.",
  [DP, DB, DG, DR, L], [("PackedDB._pack_info, _sort_entities, update_cache", DP), ("CompoundDB._db_query", DB), ("GitDB._set_cache_", DG), ("ReferenceDB._update_dbs_from_ref_file", DR), ("LazyMixin.__getattr__", U)],
  ["answers of both threads", "queries after both finished"], EX,
  "runtime monitor: a trace function pre-empts one thread at a chosen executed line and runs the other thread's operation to its end, also a store, a fork or external changes followed by an update; all answers compared with the model",
  "One pre-emption per operation, between executed lines of gitdb or smmap, at up to 40 points each; and up to five threads running freely at the shortest switch interval."),
P("C31", "gitdb and git can work on the same objects",
  "Whatever git does to an object directory - storing, committing, any kind of repacking, pruning, writing multi-pack indices and other auxiliary files, importing packs, unpacking, changing alternates - and whatever gitdb stores or packs in between: after an update, a database that was open all the time and a new one hold exactly the objects git lists, with their type, size and content, and git reads everything gitdb wrote. While git repacks, an object that stays is found after an update at the latest and is never read wrong, and stores succeed while git prunes.",
  ["histories", "schedules"], "every history of git commands, stores and packs; every point of a store at which git prunes",
  "No test runs git; the fixtures are a handful of packs and loose files.",
  [DG, L, DP, PK], [("GitDB", DG), ("LooseObjectDB.store, sha_iter", L), ("PackedDB.update_cache", DP), ("PackEntity.create", PK)],
  ["all queries of gitdb", "git cat-file, git fsck", "result of store()"], EX,
  "runtime monitor: differential testing against git itself after every update of random histories; concurrent repacking by git; pruning injected at every executed line of a store",
  "git 2.43 with SHA-1; commands as listed in checks/c31.py. Time-dependent pruning is not included."),
]

CMD = "/opt/venv/bin/python run.py %s"
NOT_APPLICABLE = []
CLAIMED = None   # None: all

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    claimed = [p for p in PROPS if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"], "quick_cmd": CMD % p["id"], "thorough_cmd": "env VERIF_TIER=thorough " + CMD % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": p["level"], "level_note": p["note"],
        } for p in claimed],
        "not_applicable": NOT_APPLICABLE + [
            {"property": p["id"], "reason": "check not built yet"} for p in PROPS if p not in claimed],
        "notes": "No hooks in /repo: all instrumentation is applied from outside (wrappers around the public API, an LD_PRELOAD file-system shim, sys.monitoring).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(claimed), "claimed")

main()
