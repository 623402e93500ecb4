#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

EP = "util/env_posix.cc"; CA = "util/cache.cc"; ME = "helpers/memenv/memenv.cc"
EN = "include/lsmdb/env.h"; EC = "util/env.cc"; SK = "db/skiplist.h"; AR = "util/arena.cc"

p("C01", "Appended bytes reach the file exactly once, in order",
  "For a writable file of the default environment, whatever sizes are appended, as long as no operation has failed, whenever Append, Flush, Sync and Close return OK the bytes handed to the operating system followed by the bytes still buffered are exactly the concatenation of everything appended, with nothing lost, repeated, reordered or read from outside the caller's data. After a successful Flush, Sync or Close nothing is left buffered. Short writes are continued where they stopped and interrupted writes are retried.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of append sizes, every buffer fill level, every pattern of short, interrupted and failed write() calls",
  "No test opens a default-environment writable file; fill level, append size and write() outcomes are unbounded integers.",
  [EP], [("write buffer and its fill counter", EP + ": PosixWritableFile::Append"), ("write loop", EP + ": PosixWritableFile::WriteUnbuffered"), ("flush", EP + ": PosixWritableFile::FlushBuffer")],
  [("buf_/pos_", "bytes appended but not yet written", EP)], ["write(2) calls", "returned Status"])

p("C02", "A successful Sync means the data was pushed to stable storage",
  "When Sync on a default-environment writable file returns OK, all buffered data was first written to the file and then a data-sync of that very file descriptor succeeded. If the file's base name begins with MANIFEST, the directory containing it was also synced successfully, and that happened before any of the manifest's own data was written out by the call. No failing step is followed by OK. This holds in every build configuration: with and without fdatasync, and where F_FULLFSYNC exists.",
  ["crash_points", "fault_sequences", "inputs", "configurations"],
  "every file name, buffer state, and every combination of failing open/write/fsync calls; a crash may follow at any point after OK",
  "Durability is only visible after a crash; no test calls Sync on a default-environment file, and faults are never injected.",
  [EP], [("sync protocol", EP + ": PosixWritableFile::Sync"), ("directory sync", EP + ": SyncDirIfManifest"), ("fd sync", EP + ": SyncFd")],
  [("is_manifest_", "base name starts with MANIFEST", EP), ("dirname_", "directory of the file", EP)], ["fdatasync(2)/fsync(2) calls", "returned Status"])

p("C03", "Failed system calls of the default environment are reported, faithfully",
  "In the default environment, an operation in which a system call it depends on fails returns a non-OK status (or false, for existence tests), and an operation whose system calls all succeed returns OK with their results. A failure whose error number means 'no such file or directory' gives NotFound and any other gives an I/O error. A sequential read or a write that was merely interrupted is retried instead of being reported.",
  ["fault_sequences", "inputs"],
  "every operation, every system call in it, success or failure with any errno",
  "Tests never run the default environment's file operations and cannot make individual system calls fail.",
  [EP], [("errno to Status mapping", EP + ": PosixError"), ("error branches", EP + ": PosixEnv and file classes")],
  (), ["returned Status", "system calls"])

p("C04", "Factories: OK if and only if an object was produced",
  "Every operation of an environment that creates a file object, lock or logger stores a non-null object exactly when it returns OK, and stores a null pointer whenever it returns non-OK, in the default environment, the in-memory environment and the base-class fallback alike. The caller never sees a success without an object, a failure with one, or an uninitialised pointer.",
  ["fault_sequences", "inputs"],
  "all creating operations of every environment, all failure points inside them",
  "Failure branches depend on system-call outcomes that tests cannot force, and most factories are never called in a test.",
  [EP, ME, EC, EN], [("out parameter discipline", EP + ": New*File, NewLogger, LockFile"), ("in-memory factories", ME + ": InMemoryEnv::New*File"), ("fallback", EC + ": Env::NewAppendableFile")],
  (), ["*result and returned Status"])

p("C05", "Every OS resource is released exactly once",
  "Every file descriptor, memory mapping, directory stream and stdio stream that the default environment opens is, on every path, either released exactly once before the operation returns or owned by exactly one returned object, whose destruction (or Close) releases it exactly once. A descriptor is never used or closed again after it was closed, and a descriptor closed explicitly is not closed again by the destructor.",
  ["fault_sequences", "histories"],
  "every operation, every failing system call inside it, every Close/destroy history of the returned objects",
  "Leaks and double closes are silent in single-threaded tests, and error paths are not reachable by tests.",
  [EP, "util/posix_logger.h"], [("fd ownership in file objects", EP + ": Posix*File constructors/destructors/Close"), ("error-path closes", EP + ": PosixEnv factories, LockFile, SyncDirIfManifest")],
  [("fd_", "owned descriptor or -1", EP)], ["open/close/mmap/munmap/opendir/closedir/fdopen/fclose calls"])

p("C06", "The mmap and descriptor budgets are never exceeded nor leaked",
  "A budget unit is granted only while units remain, so no more than the configured number of mappings or cached read-only descriptors exist at once under any interleaving. Each unit granted is given back exactly once: when the object using it is destroyed, or at once if creating the object fails; a unit that was not granted is never given back.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of concurrent opens and closes, every failing open/mmap/stat",
  "Tests never reach the limits, never fail mmap, and run one thread.",
  [EP], [("counter", EP + ": Limiter::Acquire/Release"), ("pairing", EP + ": NewRandomAccessFile, PosixRandomAccessFile, PosixMmapReadableFile")],
  [("acquires_allowed_", "units left", EP)], ["number of live mappings/descriptors"])

p("C07", "A locked file has one holder until it is unlocked",
  "LockFile of the default environment returns OK only after it reserved the name in this process and then obtained an exclusive whole-file record lock; a second LockFile of a held name fails at once without disturbing the holder's lock, including the operating-system lock that closing any descriptor of that file would drop. Whoever fails gives back precisely what it took itself. UnlockFile releases the record lock and the descriptor before the name becomes available to others in the process.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of lock and unlock calls by threads and processes, every failing system call inside them",
  "The only lock test uses the in-memory environment, where locking is a no-op.",
  [EP], [("in-process table", EP + ": PosixLockTable"), ("record lock", EP + ": LockOrUnlock"), ("protocol", EP + ": PosixEnv::LockFile/UnlockFile")],
  [("locked_files_", "names held by this process", EP)], ["LockFile/UnlockFile results", "fcntl(F_SETLK)"])

p("C08", "Shared mutable state is only touched under its lock; locks are always released",
  "In the cache, the in-memory environment, the default environment's lock table and its background queue, every read or write of shared mutable state made by a public operation happens while the mutex protecting that state is held. Every operation releases each mutex it took on all paths, never takes one it already holds, and no two mutexes are ever taken in opposite orders.",
  ["schedules"],
  "every public operation of these components run concurrently with any other, every path through it",
  "All tests are single-threaded, so a missing lock or a lock left held on an early exit is invisible to them.",
  [CA, ME, EP, "util/mutexlock.h", "port/port_stdcxx.h"], [("scoped locks and GUARDED_BY annotations (not checked by the gcc build)", "util/mutexlock.h, port/thread_annotations.h"), ("shard mutex", CA), ("file and name-space mutexes", ME), ("queue and table mutexes", EP)],
  (), ["lock/unlock calls and accesses to the guarded fields"])

p("C09", "Each scheduled work item runs exactly once, in order, on a live worker",
  "Every item given to the default environment's Schedule is taken from the queue exactly once, in the order of the Schedule calls, and its function is called once with the argument given with it, while no internal lock is held. The worker thread is started at most once, sleeps only while the queue is empty, re-checks after every wake-up, and is always woken when an item arrives at an empty queue. StartThread runs its function once with its argument in a new thread.",
  ["schedules", "histories"],
  "every interleaving of Schedule calls with the worker, spurious wake-ups included",
  "No test schedules anything; lost wake-ups and double starts need particular interleavings.",
  [EP, "port/port_stdcxx.h"], [("queue, mutex, condition variable", EP + ": PosixEnv::Schedule, BackgroundThreadMain")],
  [("background_work_queue_", "pending items", EP), ("started_background_thread_", "worker exists", EP)], ["calls of the scheduled function"])

p("C10", "Cache entries live exactly as long as they are referenced",
  "An inserted value is passed to its deleter exactly once, with its own key, at the moment the cache no longer contains it and no client holds a handle to it, and never earlier: erasing, replacing, pruning or evicting an entry leaves every handle already given out valid. Every handle returned by Insert or Lookup counts as one reference and Release gives back exactly one. With capacity 0 nothing is retained, but the returned handle stays valid until released.",
  ["histories", "inputs", "schedules"],
  "every sequence of Insert/Lookup/Release/Erase/Prune/destroy from any reachable entry state (cached or not, any reference count)",
  "Tests try a handful of histories with small counts; the reference/in-cache state machine must be right from every state.",
  [CA, "include/lsmdb/cache.h"], [("reference counts", CA + ": LRUCache::Ref/Unref/FinishErase"), ("in_cache flag", CA)],
  [("refs, in_cache", "references incl. the cache's own; whether cached", CA)], ["deleter calls", "handle validity"])

p("C11", "Cache charge, capacity and eviction order",
  "TotalCharge is always the sum of the charges of the entries currently in the cache. After Insert returns, each partition is within its capacity or contains no unpinned entry: while it is over capacity unpinned entries are removed, oldest last-released first, and pinned entries are never removed for capacity. Prune removes every unpinned entry and no pinned one.",
  ["histories", "inputs"],
  "every charge, capacity and history of operations",
  "Tests use a few charges on one thread and check totals approximately.",
  [CA], [("usage counter", CA + ": LRUCache::Insert/FinishErase"), ("LRU and in-use rings", CA + ": LRU_Append/LRU_Remove/Ref/Unref"), ("eviction loop", CA + ": LRUCache::Insert, Prune")],
  [("usage_", "sum of cached charges", CA), ("lru_, in_use_", "unpinned / pinned cached entries", CA)], ["TotalCharge, Lookup after eviction"])

p("C12", "The cache maps each key to its latest entry",
  "Lookup finds an entry if and only if it is cached under exactly that key (length and bytes), whatever the keys' hashes and however often the table has grown; Insert replaces an earlier entry of the same key and Erase removes it and nothing else. Insert, Lookup, Erase and Release of one key always use the same partition, and partition and bucket indices are always in range.",
  ["inputs", "histories"],
  "every set of keys incl. colliding hashes, every table size, every insertion/removal order",
  "Tests use 4-byte integer keys whose full hash rarely collides; collision chains and resize with chains are barely exercised.",
  [CA], [("hash table", CA + ": HandleTable::FindPointer/Insert/Remove/Resize"), ("sharding", CA + ": ShardedLRUCache::Shard/HashSlice")],
  [("table_", "bucket array of chains", CA)], ["Lookup results"])

p("C13", "Arena blocks are aligned, disjoint, in bounds, accounted and freed once",
  "Each allocation of n bytes from an arena returns n bytes that lie inside memory the arena owns and overlap no other allocation; aligned allocations are aligned to 8 bytes (or pointer size) whatever came before. Every block obtained from the system is counted in MemoryUsage and is freed exactly once, when the arena is destroyed.",
  ["inputs", "histories"],
  "every sequence of allocation sizes and kinds",
  "One pseudo-random sequence is tested; it does not check alignment of aligned requests in release builds nor freeing.",
  [AR, "util/arena.h"], [("bump pointer", "util/arena.h: Arena::Allocate"), ("block refill", AR + ": AllocateFallback/AllocateNewBlock"), ("alignment", AR + ": AllocateAligned")],
  [("alloc_ptr_, alloc_bytes_remaining_", "free tail of the current block", "util/arena.h"), ("blocks_", "owned blocks", "util/arena.h")], ["returned pointers", "MemoryUsage"])

p("C14", "Readers never see a half-built skip-list node",
  "A reader (Contains, Seek, SeekToFirst, SeekToLast, Next, Prev) that runs at the same time as Insert never follows a link that Insert has not yet written, never reads a key that it has not fully written, never touches memory outside the head or a node, and stays correct under every reordering that C++ release/acquire rules allow: it finds every key inserted before it started, stops only at inserted keys, and its use of a node is always ordered after the writes that built that node (release publication, acquire traversal).",
  ["schedules"],
  "every interleaving of one writer with any number of readers, every memory-model reordering, every node height",
  "There is no skip-list test at all, and x86 hides most ordering mistakes.",
  [SK], [("release/acquire links", SK + ": Node::SetNext/Next"), ("publication loop", SK + ": SkipList::Insert"), ("allocation", SK + ": NewNode")],
  [("next_", "per-level links", SK), ("max_height_", "current height", SK)], ["reader traversals"])

p("C15", "Skip-list search and iteration agree with the comparator's order",
  "For any comparator that is a total order: Contains is true exactly for inserted keys, Seek stops at the first key not less than the target, SeekToFirst, SeekToLast, Next and Prev move to the first, last, next and previous key (or become invalid where there is none), whatever the heights of the nodes, the order of insertion and the magnitude of the numbers the comparator returns. The comparator is only ever called with inserted keys and targets. Inserting a new key never aborts and never touches memory outside a node.",
  ["inputs", "histories"],
  "every set of keys, insertion order, node height and target",
  "There is no skip-list test; the template is never even instantiated by the build.",
  [SK], [("search", SK + ": FindGreaterOrEqual/FindLessThan/FindLast"), ("iterator", SK + ": SkipList::Iterator"), ("insert", SK + ": SkipList::Insert/RandomHeight")],
  (), ["iterator positions, Contains"])

p("C16", "Fixed and variable-length integer encodings round-trip",
  "For every 32- or 64-bit value, decoding its fixed-length or variable-length encoding returns that value and consumes exactly the bytes the encoder produced. Fixed encodings are little-endian regardless of host; variable-length encodings use the minimal number of 7-bit groups, at most 5 or 10 bytes, and the length predictor returns exactly that number. A length-prefixed string (shorter than 4 GiB) decodes to the same bytes.",
  ["inputs"],
  "all 2^32 / 2^64 values",
  "There is no coding test; the cache test uses PutFixed32 with small keys only.",
  ["util/coding.cc", "util/coding.h"], [("encoders", "util/coding.cc: EncodeVarint32/64, util/coding.h: EncodeFixed32/64"), ("decoders", "util/coding.cc: GetVarint32PtrFallback/GetVarint64Ptr, util/coding.h: DecodeFixed32/64"), ("length", "util/coding.cc: VarintLength")],
  (), ["returned values and pointers"])

p("C17", "Decoding arbitrary bytes is memory-safe and all-or-nothing",
  "Given any byte sequence, truncated or malformed included, the variable-length and length-prefixed decoders and the hash function never read outside it. They report failure when no complete value is present, and success only with a result that lies inside the input; on success the input is advanced by exactly the bytes consumed and on failure of an integer decoder it is left unchanged.",
  ["inputs"],
  "all byte sequences of all lengths, adversarial ones included",
  "No test feeds truncated or malformed encodings; out-of-bounds reads need not crash.",
  ["util/coding.cc", "util/coding.h", "util/hash.cc"], [("limit checks", "util/coding.cc: GetVarint*Ptr*, GetLengthPrefixedSlice"), ("tail handling", "util/hash.cc: Hash")],
  (), ["bytes read", "returned value"])

p("C18", "Slice comparison is the bytewise total order",
  "Comparing two slices gives the sign of the unsigned bytewise lexicographic order with a proper prefix ordered first; equality holds exactly when lengths and bytes are equal, inequality is its negation, and starts_with holds exactly when the other slice is no longer and its bytes are a prefix. No comparison reads past the end of either slice. The accessors, remove_prefix, clear, ToString and the constructors denote exactly the bytes they are documented to denote.",
  ["inputs"],
  "all pairs of byte strings, empty ones and ones with NUL or high bytes included",
  "Tests compare a few short ASCII strings for equality only.",
  ["include/lsmdb/slice.h"], [("compare, ==, starts_with", "include/lsmdb/slice.h")],
  (), ["results"])

p("C19", "Status is a value: copies are independent and nothing is lost or freed twice",
  "For messages totalling less than 4 GiB, constructing, copying, assigning and moving statuses in any order (self-assignment and self-move included) never shares, leaks, double-frees or reads outside a status's storage, and a copy or moved-to status has the same code and message as the source had. Each constructor function yields its own code: exactly the matching predicate is true for it, ok() only for OK. ToString is 'OK' or the code's label followed by the complete message, joined with ': ' when two parts were given.",
  ["inputs", "histories"],
  "all messages, codes and sequences of copy/move/assign operations",
  "The one test moves two statuses; copies, assignment and two-part messages are not tested.",
  ["include/lsmdb/status.h", "util/status.cc"], [("state layout", "util/status.cc: Status::Status, CopyState, ToString"), ("ownership", "include/lsmdb/status.h: copy/move members")],
  [("state_", "null for OK, else new[] length|code|message", "include/lsmdb/status.h")], ["predicates, ToString"])

p("C20", "Decimal parsing is exact and text formatting cannot overflow",
  "Parsing a decimal number accepts exactly the leading digits, returns their exact value, and fails if and only if there is no digit or the value exceeds the largest unsigned 64-bit number; arithmetic never wraps silently. Escaping a string copies printable ASCII bytes and renders every other byte as \\x followed by exactly two hexadecimal digits, and number and escape formatting never overflow or truncate in their buffers.",
  ["inputs"],
  "all byte strings and all 64-bit numbers",
  "Tests sample numbers near the maximum; escaping is not tested at all.",
  ["util/logging.cc"], [("overflow guard", "util/logging.cc: ConsumeDecimalNumber"), ("escaping", "util/logging.cc: AppendEscapedStringTo"), ("number formatting", "util/logging.cc: AppendNumberTo")],
  (), ["results"])

p("C22", "Each log call writes one complete, newline-terminated entry",
  "Every call of the default environment's logger, whatever the message length, writes exactly one entry holding the complete message to its stream, ending in a newline (added only when the message does not already end in one), and flushes it, without ever writing outside its buffers or leaking one; a message too long for the first buffer is formatted again, from the same arguments, in one large enough for all of it.",
  ["inputs"],
  "every format result length, around and far beyond the size of the first buffer",
  "The logger has no test; the interesting lengths are at buffer-size boundaries.",
  ["util/posix_logger.h"], [("two-pass formatting", "util/posix_logger.h: PosixLogger::Logv")],
  (), ["fwrite calls"])

p("C23", "An in-memory file's data lives while it has a name or an open handle",
  "In the in-memory environment a file's contents stay valid as long as the file has a name or an open file object refers to it, and are destroyed exactly once when the last of these goes away. Removing, replacing, renaming or re-creating a file never invalidates a file object that is still open, and destroying the environment or the objects in any order neither leaks nor double-frees.",
  ["histories", "schedules"],
  "every sequence of create/append/rename/remove/close/destroy operations on any number of names",
  "Tests close every handle before removing a file; lifetimes after removal or rename are not tested.",
  [ME], [("reference count", ME + ": FileState::Ref/Unref"), ("references from names and handles", ME + ": InMemoryEnv, *FileImpl")],
  [("refs_", "names + open handles", ME)], ["FileState allocation and deletion"])

p("C24", "In-memory file contents: reads return exactly what was appended",
  "In the in-memory environment, appending n bytes extends the file by exactly those n bytes, and a read of n bytes at offset o returns exactly the stored bytes o..min(o+n, size), across any block boundary; an offset beyond the end is an error and never a wild access. A sequential file advances by exactly the bytes it returned and never skips past the end of the file.",
  ["inputs", "histories"],
  "every offset, length and append size relative to block boundaries",
  "Tests write 300 KiB once and read from the start; unaligned offsets and exact block multiples are not covered.",
  [ME], [("block arithmetic", ME + ": FileState::Read/Append"), ("sequential position", ME + ": SequentialFileImpl::Read/Skip")],
  [("blocks_, size_", "8 KiB blocks holding size_ bytes", ME)], ["returned Slice"])

p("C25", "In-memory name space behaves like a file system's",
  "In the in-memory environment a successful create, or opening for append, makes the name exist with a usable file; opening for append keeps existing contents and creating anew empties them; remove makes exactly that name disappear; rename moves the file to the new name, replacing what was there, and renaming a file to itself keeps it. Operations on a missing name fail without creating it, and a missing file is reported as NotFound when opened for reading. Listing a directory yields exactly the names of the files created in it, without the directory.",
  ["histories", "inputs"],
  "every sequence of name-space operations over any set of names",
  "Tests never append to a file that does not exist yet, rename onto itself, or rename over an existing file.",
  [ME], [("name map", ME + ": InMemoryEnv::file_map_ operations")],
  [("file_map_", "name to file", ME)], ["FileExists, GetFileSize, Status"])

p("C26", "A wrapping environment forwards every operation faithfully",
  "Each operation of the forwarding environment performs exactly one call, to the same operation of the wrapped environment, with the caller's arguments in the same positions, and returns its result unchanged. This holds for every operation of the environment interface.",
  ["inputs", "programs"],
  "all operations and all arguments",
  "Tests exercise the wrapper only through subclasses that override nearly everything.",
  [EN], [("forwarders", EN + ": EnvWapper")],
  (), ["calls on the target"])

p("C27", "Whole-file helpers are all-or-nothing",
  "Writing a string to a file returns OK only if creating, appending all the data, (for the syncing variant) syncing before closing, and closing all succeeded; if anything after creation failed the file is removed and the first error is returned. Reading a file returns OK only when the end of file was reached, with exactly the concatenation of all fragments read, and stops at the first error. The file object is destroyed exactly once on every path.",
  ["fault_sequences", "inputs"],
  "any environment, failing at any step with any status, any number of read fragments",
  "Tests only use the in-memory environment, whose files never fail.",
  [EC], [("helpers", EC + ": DoWriteStringToFile, ReadFileToString")],
  (), ["environment and file calls, returned Status"])

p("C28", "The pseudo-random generator never gets stuck and respects its ranges",
  "From any 32-bit seed the generator's state is always in 1 .. 2^31-2, follows the documented multiplicative recurrence modulo 2^31-1, and Uniform(n) is in 0 .. n-1 and Skewed(max_log) is below 2^max_log, with no overflow; OneIn(1) is always true.",
  ["inputs", "histories"],
  "all seeds and any number of steps",
  "Tests use two seeds.",
  ["util/random.h"], [("seed clamping and reduction", "util/random.h: Random")],
  [("seed_", "generator state", "util/random.h")], ["Next, Uniform, Skewed"])

p("C29", "Files are opened in the mode the operation promises",
  "In the default environment, readers open existing files read-only and never create or truncate; creating a writable file creates it or empties an existing one; opening for append or as a log creates it if needed but never truncates and always writes at the end; locking never truncates. Every descriptor opened is close-on-exec, and created files and directories are not writable by others.",
  ["inputs", "programs"],
  "every file-opening operation and every path through it",
  "No test opens files through the default environment, and wrong flags only show on pre-existing files or after exec.",
  [EP], [("open flags", EP + ": kOpenBaseFlags and each open call")],
  (), ["open(2) flags and mode"])

p("C30", "Reads of on-disk files deliver exactly the requested range",
  "A random-access read of n bytes at offset o on the default environment returns the bytes the operating system has there and never touches memory outside the caller's scratch buffer or the mapped file, for all o and n including huge ones; a range not inside a mapped file is an error. A sequential read returns exactly the bytes read and a skip moves forward by exactly n. Random-access reads keep no position and may run concurrently.",
  ["inputs", "schedules"],
  "all offsets and lengths up to 2^64-1, all short read counts",
  "No test reads through the default environment; overflow needs offsets near 2^64.",
  [EP], [("pread/mmap reads", EP + ": PosixRandomAccessFile::Read, PosixMmapReadableFile::Read"), ("sequential", EP + ": PosixSequentialFile::Read/Skip")],
  [("mmap_base_, length_", "mapped region", EP)], ["returned Slice, pread/lseek arguments"])

p("C31", "Mutex, condition variable and scoped lock do what their names say",
  "Locking and unlocking the portable mutex locks and unlocks its underlying mutex exactly once; a scoped lock holds its mutex from construction to destruction on every path. Waiting on a condition variable releases and re-acquires its mutex and returns with the mutex held and not owned by any temporary; signalling wakes one waiter and signalling all wakes every waiter.",
  ["schedules"],
  "every interleaving",
  "No test waits on a condition variable or contends for a mutex.",
  ["port/port_stdcxx.h", "util/mutexlock.h"], [("wrappers", "port/port_stdcxx.h: Mutex, CondVar"), ("scoped lock", "util/mutexlock.h: MutexLock")],
  (), ["operations on the underlying std::mutex / std::condition_variable"])

p("C32", "The default environment is one object for the life of the process",
  "Env::Default always returns the same fully constructed environment, which is never destroyed; new identifiers from a cache are never repeated; the time source is microseconds since a fixed epoch; and the read-only-descriptor budget is the configured one or a fifth of the process limit.",
  ["histories", "schedules", "configurations"],
  "any number of callers in any order, any resource limit",
  "Tests call these once or twice.",
  [EP, CA], [("singleton", EP + ": SingletonEnv, Env::Default"), ("id counter", CA + ": NewId"), ("clock", EP + ": NowMicros"), ("limit", EP + ": MaxOpenFiles")],
  (), ["returned values"])

p("C40", "Concurrent calls take effect one after the other",
  "When two threads call operations of the same cache or of the same in-memory environment (or of open files on the same in-memory file) at the same time, the results of both calls and the contents left behind are those of running the two calls one after the other in one of the two orders: no call sees or leaves another half done, whichever way the threads are interleaved. (Prune and TotalCharge visit a cache's partitions one after the other and are atomic within each partition only.)",
  ["schedules"], "all pairs of calls and all points at which one thread can be preempted by the other",
  "Tests are single-threaded.",
  [CA, ME], [("one critical section of the partition's mutex per call", CA), ("the name-space mutex held for the whole call; each file's mutex held for the whole of a read or append", ME)], (),
  ["results of both calls, deletions, later lookups; names, sizes, contents and positions afterwards"])

p("C41", "Eviction approximates global least-recently-used order across partitions",
  "Over any access history the entries surviving in the whole cache are the most recently used ones up to partitioning error.",
  ["histories", "inputs"], "all access histories and key distributions",
  "Tests check one access pattern.",
  [CA], [("sharded LRU", CA)], (), ["hit/miss results"])
p("C42", "Hash values and random node heights are well distributed",
  "Hash spreads realistic keys evenly over partitions and buckets, and skip-list heights follow the geometric distribution that gives logarithmic search.",
  ["inputs"], "all key distributions",
  "Tests check six hash values.",
  ["util/hash.cc", SK], [("Hash", "util/hash.cc"), ("RandomHeight", SK)], (), ["bucket occupancy, search cost"])
p("C43", "A sleep lasts at least as long as asked",
  "SleepForMicroseconds(n) of the default environment asks the operating system to sleep for at least n microseconds in total, for every n up to the largest int: no conversion overflows, truncates or is rejected as an invalid time, and a sleep cut short by a signal is resumed for the time that was left.",
  ["inputs", "fault_sequences"], "all durations, signals arriving during the sleep",
  "Tests do not measure time, and long sleeps and signals are never tried.",
  [EP], [("SleepForMicroseconds", EP)], (), ["nanosleep (or equivalent) calls: times asked for and left"])

p("C44", "Objects that own something cannot be duplicated by copying, and are destroyed whole",
  "No program can copy or assign a cache, environment, open file, logger, file lock, arena, skip list, mutex, condition variable or scoped lock: such a program does not compile, so no memory, descriptor or lock can end up with two owners. Deleting an environment, file, logger, lock or cache through a pointer to its interface runs the destructor of the actual object. Status and Slice, the value types, can be copied and assigned freely.",
  ["inputs"], "all programs that use these types",
  "A test is a program that compiles; that others must not compile, no test can show.",
  ["util/noncopyable.h", EN, "include/lsmdb/cache.h", "util/arena.h", SK, "util/mutexlock.h", "port/port_stdcxx.h"], [("noncopyable base, virtual destructors", "util/noncopyable.h, include/lsmdb/env.h, include/lsmdb/cache.h")], (),
  ["acceptance by the type checker"])

p("C45", "Every call returns",
  "Every operation of the library ends: as long as system calls are not interrupted for ever and other threads let go of their locks, no operation loops without end and none waits for a lock its own thread already holds, whatever the arguments, sizes and contents and whatever short counts, ends of file and errors the operating system reports. (The background thread, which is meant to run for ever, is excluded.)",
  ["inputs", "histories", "fault_sequences"], "all arguments, contents, histories of calls and outcomes of system calls",
  "A call that does not return needs one particular size, content or short count; tests try a handful.",
  [EP, CA, ME, EC, SK, AR, "util/coding.cc", "util/logging.cc", "util/hash.cc", "util/random.h", "util/posix_logger.h"], [("loops over buffers, files, lists and digits", "all sources"), ("locks that are not recursive", "port/port_stdcxx.h")], (),
  ["the call returns"])

p("C46", "Operations on names act on exactly the named files",
  "In the default environment OK means that the operation took place on the very name it was given: RemoveFile removed that file (never a directory), CreateDir and RemoveDir created or removed that directory, RenameFile moved the first name onto the second, replacing it atomically, GetFileSize, FileExists and GetChildren asked about that name, and the factories and LockFile opened it; no operation creates, removes, renames or opens for writing anything else. GetChildren returns the very names the directory contains, and GetTestDirectory the value of TEST_TMPDIR if that is set and not empty and /tmp/lsmdbtest-<effective user id> otherwise, after trying to create it.",
  ["inputs", "fault_sequences", "configurations"], "all names, outcomes of system calls, directory contents and environments",
  "The tests of the default environment use no name operation but through scratch files, and never look at what else was touched.",
  [EP], [("system calls on names", EP + ": PosixEnv")], (), ["paths given to open, unlink, rename, mkdir, rmdir, stat, access, opendir", "names returned"])

p("C47", "Optional libraries answer truthfully, present or absent",
  "Snappy_Compress, Snappy_GetUncompressedLength, Snappy_Uncompress, AcceleratedCRC32C and GetHeapProfile never claim what did not happen. Built without the library they answer false (or 0), leave every output untouched and call nothing back; built with it they hand exactly the caller's bytes to the library, give it the room it was promised, and return its answer, the compressed output cut to the length the library reported.",
  ["inputs", "configurations"], "all inputs and outputs, in the build configurations with and without the libraries",
  "No test calls these functions, and the build here contains neither library.",
  ["port/port_stdcxx.h"], [("wrappers of the optional libraries", "port/port_stdcxx.h: Snappy_*, AcceleratedCRC32C, GetHeapProfile")], (), ["return values", "output string, length and buffer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
