"""The properties and the checks that decide them: the single source of properties.jsonl and MANIFEST.json."""

G = "gogenerics/"
FILES = {
    "map": [G + "gconcurrent/sync/map.go"],
    "mr": [G + "gconcurrent/mr/mr.go"],
    "err": [G + "gconstraints/errors.go"],
    "lru": ["library/cachex/lrucache.go"],
    "chain": ["library/cachex/cache.go"],
    "file": ["library/cachex/file.go"],
    "bits": ["library/bitset/bitset.go"],
    "skip": [G + "gds/gskiplist/skiplist.go"],
    "rbt": [G + "gds/grbt/rbt.go"],
    "heap": [G + "gcontainers/gheap/heap.go"],
    "list": [G + "gcontainers/glist/list.go"],
    "ring": [G + "gcontainers/gring/ring.go"],
    "queue": [G + "gcontainers/gqueue/fifo.go"],
    "set": [G + "gcontainers/gset/set.go", G + "gcontainers/gmap/map.go"],
    "slice": [G + "gcontainers/gslice/slice.go"],
    "num": [G + "gnumerics/math.go"],
    "pool": [G + "gcontainers/gpool/syncpool.go"],
    "type": [G + "gconstraints/type.go"],
    "rand": ["hack/fastrand/fastrand.go", "hack/fastrand/runtime19.go"],
    "unsafe": ["hack/unsafex/str20.go"],
    "crypt": ["library/cryptox/cryptox.go"],
    "pass": ["library/password/password.go"],
    "str": ["library/stringx/stringx.go"],
}

FILES["all"] = sorted({f for fs in FILES.values() for f in fs})
FILES["cost"] = FILES["heap"] + FILES["rbt"]
FILES["steps"] = FILES["skip"] + FILES["list"]
FILES["func"] = sum((FILES[k] for k in ("slice", "num", "set", "list", "rbt", "bits", "chain")), [])
FILES["read"] = sorted(sum((FILES[k] for k in ("skip", "rbt", "list", "set", "chain")), []))
FILES["panic"] = sorted(sum((FILES[k] for k in ("map", "bits", "rbt", "file", "pool", "set", "list")), []))

SEQ, CONC, ONE = "seq", "conc", "one"

# id, title, statement, over, quantifier text, why tests can't, files key, mechanisms [(name, where)], group, level, technique, note
P = []


def prop(id, title, statement, over, text, why, files, mech, group, level, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  group=group, level=level, technique=technique, note=note))


MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
T_BFS = "explicit-state model checking of the real code against a reference model"
T_ENUM = "bounded exhaustive enumeration of inputs on the real code against a reference model"
T_SCHED = "stateless model checking: every schedule of small programs on the real code under a controlled scheduler"
N_BFS = ("Every state reachable with the stated alphabet and depth is visited on the real code and compared with a reference model; "
         "values and sizes beyond the alphabet are not covered.")
N_ENUM = "Every input within the stated bounds is run on the real code; inputs beyond the bounds are not covered."
N_SCHED = ("Every interleaving (up to happens-before equivalence) of the listed programs at the synchronization operations is executed on the "
           "rewritten real code, sequentially consistent memory, data races reported by the race detector in the same executions; "
           "trusts the rewriting of sync, channel, context, time and file operations to the scheduler's own versions.")

# ---------------------------------------------------------------- concurrent map
prop("M01", "Concurrent map operations are linearizable",
     "When several goroutines use one concurrent map at once, every Load, Store, LoadOrStore, LoadAndDelete, Delete, Swap, CompareAndSwap and "
     "CompareAndDelete takes effect atomically at one moment between its call and its return: the results of any concurrent history are those of "
     "some sequential order of the calls on a plain Go map, consistent with their real-time order. No schedule makes a call panic, hang or race on memory.",
     ["schedules", "histories"], "every interleaving of up to 3 goroutines with 1-3 operations each on 1-2 keys, from fresh and from promoted, amended and expunged maps, and of pairs of calls in maps of hundreds of keys",
     "The tests run a few goroutines once under the real scheduler; a lost update or a resurrected key needs one particular interleaving of the lock-free "
     "fast path with promotion, expunging or copying.", "map",
     [("atomic entry pointer with nil and expunged states", "map.go: entry"), ("promotion of the dirty map", "map.go: missLocked, Range"),
      ("copying and expunging", "map.go: dirtyLocked")], CONC, MC, T_SCHED + "; linearizability decided by searching all orders", N_SCHED)
prop("M02", "Concurrent map used by one goroutine behaves as a plain map",
     "Used by a single goroutine, the concurrent map returns exactly what a plain Go map would for every sequence of Load, Store, LoadOrStore, LoadAndDelete, "
     "Delete, Swap, CompareAndSwap, CompareAndDelete and Range, whatever internal promotions happen in between. In particular the compare operations act only "
     "when the key is present with a value equal to the given old one, and a deleted key is absent until it is stored again.",
     ["histories"], "every operation sequence over 3 keys and 2 values, until no new internal state is found",
     "The hidden state (read and dirty maps, miss counter, expunged entries) only shows after particular sequences of hits, misses and deletes, "
     "the tests run one fixed sequence.", "map",
     [("read/dirty split", "map.go: Map"), ("compare", "map.go: tryCompareAndSwap, CompareAndDelete")], SEQ, MC, T_BFS, N_BFS)
prop("M03", "Range over the concurrent map is complete and consistent",
     "Range calls its function at most once per key; every key that is present with one value during the whole of the Range is visited with that value, "
     "and a visited value is one the key held at some moment during the Range. It stops as soon as the function returns false, and neither blocks nor is upset by "
     "operations other goroutines or the function itself perform on the map.",
     ["schedules", "histories"], "every interleaving of a Range with up to 2 writers on 2-3 keys, including operations made from inside the function",
     "Keys are lost or repeated only if the map is promoted or a key is deleted and re-created at a particular moment of the iteration.", "map",
     [("promotion before iterating", "map.go: Range")], CONC, MC, T_SCHED, N_SCHED)

# ---------------------------------------------------------------- MapReduce
prop("R01", "A successful MapReduce lost and duplicated nothing",
     "When nothing panics or cancels and the context does not end, the mapper is called exactly once for every item the generator (or the given channel) sent, "
     "and the reducer's input delivers every value the mappers wrote exactly once and ends after the last of them. MapReduce then returns the value the reducer wrote, with a nil error.",
     ["schedules", "inputs", "configurations"], "every interleaving for 0-3 items, 1-3 workers, 0-2 values written per item, up to the stated preemption bound",
     "The tests run one schedule of the Go runtime; a dropped item or value needs a particular order of the mapper, collector and worker-pool steps.", "mr",
     [("collector closed after all mappers", "mr.go: executeMappers"), ("output channel", "mr.go: mapReduceWithPanicChan")], CONC, MC, T_SCHED, N_SCHED)
prop("R02", "MapReduce reports the error that ended it",
     "If a mapper or a reducer that has not yet written its result cancels, MapReduce returns the zero value and the error of the first cancellation, whatever error that is, the dedicated cancelled-with-nil error when "
     "it was nil. If the context ends before there is a result it returns context.DeadlineExceeded, and if the reducer returns without writing it returns the no-output error, which the void variant turns into nil.",
     ["schedules", "inputs"], "every interleaving of programs in which mappers or the reducer cancel (once, twice, with nil), the context ends at every possible moment, or the reducer writes nothing",
     "Which of several ready events wins is the scheduler's choice: the tests see one choice per run.", "mr",
     [("first cancel wins", "mr.go: once, cancel"), ("event selection", "mr.go: mapReduceWithPanicChan")], CONC, MC, T_SCHED, N_SCHED)
prop("R03", "Panics in callbacks reach the caller of MapReduce and ForEach",
     "If nothing cancels and the context does not end, a panic in the generator, a mapper or the reducer makes MapReduce or ForEach (and so Finish and FinishVoid) panic in the calling goroutine with (one of) the "
     "panic values, whatever their type; it never crashes the process from another goroutine and is never swallowed. Under cancellation or an ended context a panic may be dropped but still never crashes or hangs. "
     "A reducer that writes more than one result makes the call panic.",
     ["schedules", "fault_sequences"], "every interleaving with panics injected in the generator, one or two mappers, and the reducer before and after writing",
     "A panic is lost or fatal only when it happens at a particular moment relative to the end of the call.", "mr",
     [("once channel for panics", "mr.go: onceChan"), ("recover in every goroutine", "mr.go: buildSource, executeMappers")], CONC, MC, T_SCHED, N_SCHED)
prop("R04", "MapReduce and ForEach always return and leave no goroutine behind",
     "Provided the callbacks return whenever their channel operations complete, every call of MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish and FinishVoid returns or panics, "
     "and every goroutine it started ends, whatever mixture of cancellation, context end, panics and early returns happens. In particular a generator blocked on sending is released, and so is a mapper or reducer blocked on writing.",
     ["schedules", "fault_sequences", "configurations"], "every interleaving of programs mixing cancel, context end, panic, unread input and early return with 0-3 items and 1-2 workers",
     "A deadlock or leak needs a particular order of closing, draining and writing, and tests that pass do not look for leaked goroutines.", "mr",
     [("draining", "mr.go: drain, drainUntil"), ("guarded writes", "mr.go: guardedWriter"), ("done channel", "mr.go: finish")], CONC, MC, T_SCHED, N_SCHED)
prop("R05", "The worker option bounds the mappers running at once",
     "At no moment do more mappers run at once than the configured number of workers (at least one; 16 when not configured), and when enough items are available that many mappers can indeed run at the same time. "
     "Finish and FinishVoid run all their functions concurrently, so functions that wait for one another complete.",
     ["schedules", "configurations"], "every interleaving for worker settings -1..3 and more items than workers, with mappers that wait for one another",
     "Exceeding the bound by one, or running fewer, only shows for particular schedules and settings.", "mr",
     [("worker pool channel", "mr.go: executeMappers"), ("option clamping", "mr.go: WithWorkers, newOptions")], CONC, MC, T_SCHED, N_SCHED)
prop("R06", "ForEach, Finish and FinishVoid run every function once and report errors",
     "ForEach and FinishVoid return only after every item's function has been run exactly once and has returned, if the context does not end. Finish runs each function at most once, returns nil only after all of them "
     "returned nil, and otherwise returns an error that one of them returned; with no functions they all return at once.",
     ["schedules", "inputs"], "every interleaving for 0-3 functions, each succeeding or failing",
     "Returning before the last function ended, or losing an error, depends on the schedule.", "mr",
     [("void reducers", "mr.go: Finish, FinishVoid, ForEach, MapReduceVoid")], CONC, MC, T_SCHED, N_SCHED)

# ---------------------------------------------------------------- small concurrent parts
prop("E01", "The atomic error holder is a linearizable register of errors",
     "Load returns nil before the first Set, and afterwards always the error of the latest Set in some order consistent with real time, whatever the concrete types of the errors. Setting nil changes nothing, and no concurrent use panics or races.",
     ["schedules", "inputs"], "every interleaving of up to 3 goroutines storing and loading errors of different concrete types",
     "The tests store one error of one type.", "err", [("atomic value of one concrete type", "errors.go: AtomicError")], CONC, MC, T_SCHED, N_SCHED)
prop("O01", "Pools hand out each object to one holder and never invent one",
     "Get returns an object that was put before and is not currently held by anybody else, or a newly made one; a typed pool never hands one stored object to two holders. "
     "What is put goes to the runtime's pool and is handed out again unless that has dropped it. An array pool's new slices have length zero and the configured capacity.",
     ["schedules", "configurations"], "every interleaving of 2 goroutines with Get and Put, every choice the underlying pool may make",
     "Which object the runtime's pool returns is not under the tests' control.", "pool",
     [("wrapping of sync.Pool", "syncpool.go: Pool, ArrayPool")], CONC, MC, T_SCHED, N_SCHED)

# ---------------------------------------------------------------- all packages
prop("P01", "Calls that share no object do not affect one another",
     "Goroutines may at the same time call any functions of the library on objects of their own and on arguments they only read: each call answers what it answers alone, changes no "
     "argument it is not documented to change, its result stays as it is whatever is called later, and no schedule has a data race or a panic. In particular no package keeps buffers, tables, "
     "free lists or results that calls on different objects share without protection, also not at their first use. A function given to a call may itself call anything of the library.",
     ["schedules", "inputs"], "every ordered pair of about 100 calls that cover every package, each goroutine with its own objects and shared read-only arguments; every call from inside every function argument",
     "The tests call one function at a time; a shared buffer, or a table built at first use, only shows when another goroutine comes in between.", "all",
     [("no package state but constants", "stringx.go: commonInitialisms, htmlEntityRegexp, spaceReplacer; rbt.go: colorMap"), ("results of their own", "cryptox.go, stringx.go, slice.go"),
      ("objects of their own", "skiplist.go, rbt.go, heap.go, list.go, ring.go, fifo.go")], CONC, MC, T_SCHED, N_SCHED)
prop("P02", "Reading a container does not change it",
     "Any number of goroutines may read one skip list, tree, view of a tree, list, set, batch answer or chain at the same time as long as none changes it: every lookup, traversal, listing, copy "
     "and making of a view answers what it answers alone, and no schedule has a data race.",
     ["schedules", "configurations"], "every ordered pair of 19 kinds of reading on containers of 0-9 entries, before and after removals",
     "The tests read from one goroutine; a lookup that caches, repairs or reorders something is invisible to them.", "read",
     [("lookups", "skiplist.go: findExtended; rbt.go: search"), ("listings and views", "rbt.go: Keys, Nodes, SubTree; list.go: Range; cache.go: MGetResult")], CONC, MC, T_SCHED, N_SCHED)
prop("P03", "A call that panics changes nothing and leaves nothing locked",
     "If a call panics because of what the caller gave it - a function or order that panics, a JSON method that panics, a key without hash, a value that cannot be compared - the object is as it was before "
     "the call, no lock stays held, and all later calls answer as if that call had not been made. This holds for the concurrent map, bit sets (Range), trees, the file cache, pools, sets and lists.",
     ["faults", "histories"], "every sequence of 2-5 calls with a panic at each of the first places where the caller's code runs",
     "The tests never let a caller's function panic in the middle of an operation.", "panic",
     [("deferred unlocking", "bitset.go: Range; file.go: readFile; map.go: CompareAndSwap"), ("search before change", "rbt.go: insert, Delete")], CONC, FE,
     "enumeration of every place where the caller's code panics in every short history, on the real code under a controlled scheduler", N_SCHED)

# ---------------------------------------------------------------- caches
prop("L01", "LRU cache agrees with the LRU model in every history",
     "After any history of Get, MGet, Set, MSet and Delete the cache holds at most its capacity of entries and evicts exactly the least recently used ones, where both writing and successful reading count as use. "
     "An entry is found until its time-to-live is over, or, if a usage limit is set, until it was read that many times since it was last written; after that it is a miss and is gone. "
     "A batch operation answers position by position as the single operations would in sequence.",
     ["histories", "configurations"], "every operation sequence over 3 keys with capacity 1-3, usage limits 0-2, time-to-live values from under a second to centuries and clock steps, up to the stated depth",
     "There are no tests for the LRU cache's eviction, usage limit or expiry; each depends on the whole history.", "lru",
     [("recency list and index map", "lrucache.go: getOne, doSet"), ("usage count and expiry", "lrucache.go: getOne")], ONE, MC, T_BFS + " under a virtual clock", N_BFS)
prop("L02", "LRU cache operations are atomic under concurrency",
     "When several goroutines use one LRU cache at once, every Get, MGet, Set, MSet and Delete takes effect as a whole at one moment between its call and its return, so that all results agree with some sequential order on the LRU model. "
     "No schedule causes a data race, a deadlock, a panic or more entries than the capacity.",
     ["schedules"], "every interleaving of 2-3 goroutines with 1-2 operations each on 1-2 keys",
     "Unlocked access corrupts the list only under particular interleavings.", "lru", [("one mutex", "lrucache.go: mux")], CONC, MC, T_SCHED, N_SCHED)
prop("K01", "Chained cache returns the first level's hit and backfills the levels above",
     "Get and MGet on a chain ask the levels in order, each level only for the keys not found so far, and return for every requested position, repeated keys included, the value of the first level that has it. "
     "A value found is stored in exactly the levels above the one that had it, each with its own time-to-live, and levels below the hit are not asked; a key found nowhere is a miss and is stored nowhere.",
     ["inputs", "configurations", "fault_sequences"], "every combination of contents and answers of up to 3 levels for up to 3 requested keys including repeats",
     "The tests try two levels with one or two keys; index bookkeeping errors need a particular pattern of hits across levels.", "chain",
     [("position bookkeeping", "cache.go: Chain.MGet"), ("backfill", "cache.go: setForGet, msetForMGet")], SEQ, EX, T_ENUM, N_ENUM)
prop("K02", "Chained cache error handling and writes reach every level",
     "When a level's read fails without a hit, the chain returns that error and asks no further level, unless it is configured to continue, in which case the remaining levels are asked and a later hit is returned by Get without error. "
     "Set, MSet and Delete are passed to every level, with that level's time-to-live, even when some level fails; they return an error exactly if some level failed, and that error contains every level's error.",
     ["fault_sequences", "configurations"], "every assignment of success, miss and error to the levels of chains of 0-3 caches, both read-error settings",
     "The tests inject no errors.", "chain", [("error policy", "cache.go: Chain.Get, Chain.MGet"), ("joined errors", "cache.go: Set, MSet, Delete")], SEQ, FE,
     "exhaustive fault enumeration on the real code against a reference model", N_ENUM)
prop("K03", "Batch results pair every key with its own value",
     "The batch result view pairs each requested key with its own hit flag and value in request order: its traversals, key lists and maps of hits and misses are exactly the corresponding selections, and stop when asked to. "
     "The no-op cache misses every key, and accepts every write without error.",
     ["inputs"], "every hit pattern over up to 4 keys including repeats, every stopping point",
     "The tests check one pattern.", "chain", [("selection", "cache.go: MGetResult"), ("no-op cache", "cache.go: NoCache")], SEQ, EX, T_ENUM, N_ENUM)
prop("F01", "File cache agrees with a map with expiry in every history",
     "Without faults, after any history of Get, MGet, Set, MSet, Delete, Purge and background cleaning on one file cache, a key is found exactly when its latest write has not expired, been deleted or purged, and then with the value last written; different keys never share an entry. "
     "A new file cache on the same directory sees the same contents, and files in the directory that are not the cache's own are left alone.",
     ["histories"], "every operation sequence over 2-3 keys of string, integer and struct types, time-to-live values from under a second to centuries and clock steps, up to the stated depth, on an in-memory file system",
     "The tests use one or two keys and real sleeps; expiry, cleaning and reopening interact over the history.", "file",
     [("path from key", "file.go: getFilePath"), ("expiry in the file", "file.go: fileCacheItem"), ("cleaning", "file.go: gc, scanExpire, Purge")], ONE, MC,
     T_BFS + " on an in-memory file system under a virtual clock", N_BFS)
prop("F02", "File cache survives crashes and damaged files",
     "After a crash at any point of any write, with any part of the file contents written so far lost, a reopened file cache answers every Get with the value written before, the value being written, a miss or an error, never with anything else, and other keys are unaffected. "
     "A damaged entry is reported as an error at most once and then is a miss, and a new write of the key works. A call that reports success although a file operation failed has taken effect all the same.",
     ["crash_points", "fault_sequences"], "every crash point and every truncation of the file being written, in histories of up to 3 writes, and every injected failure of a file operation",
     "Tests neither crash nor damage files.", "file", [("complete JSON documents", "file.go: Set"), ("removal of damaged files", "file.go: readFile")], ONE, FE,
     "exhaustive crash-point and torn-write enumeration of the real code on an in-memory file system", N_ENUM)
prop("F03", "File cache operations on one store are safe under concurrency",
     "When several goroutines use one file cache at once, also while expired entries are being cleaned in the background, a Get returns a value that was written to that key and not yet replaced or deleted before the Get began, or a miss only if the key may be absent; no fresh entry is lost to a reader or cleaner that saw the older one. "
     "At most one background cleaning is made in a cycle and none begins before another has ended; it ends, and comes again with a call after a further cycle has passed; there is no data race or deadlock.",
     ["schedules"], "every interleaving of 2-3 goroutines with 1-2 operations each, with and without background cleaning, up to the stated preemption bound, and every short history of calls and waits with cleaning cycles from a nanosecond to centuries",
     "Removing a just-rewritten file or reading a half-written one needs a particular interleaving of file operations.", "file",
     [("store mutex", "file.go: mux"), ("single cleaner", "file.go: gc")], CONC, MC, T_SCHED + " and an in-memory file system", N_SCHED)

# ---------------------------------------------------------------- bit sets
prop("B01", "Bit set behaves as an array of bits",
     "Set returns the previous bit and makes Get return the new one, changes no other bit, and grows the set with zero bits to whole bytes when the offset lies beyond its end; negative offsets count from the end, and one beyond the left end is an error that changes nothing (Get returns false). "
     "Size, Range, Bytes, Binary and String all show that same sequence of bits, Bytes is a copy, a hex string read back gives the same set, and Clear zeroes every bit without changing the size.",
     ["histories"], "every operation sequence on sets of up to 3 bytes with all offsets in and around the range",
     "The tests set a handful of offsets.", "bits", [("byte and bit index", "bitset.go: Set, Get, getBit"), ("views", "bitset.go: Range, Bytes, Binary, String")], SEQ, MC, T_BFS, N_BFS)
prop("B02", "Bit set Count and Sub are exact for every range",
     "Count(start, end) is the number of one bits at offsets from start to end inclusive, and Sub(start, end) is a new set holding exactly those bits from its offset 0 on, padded with zero bits to whole bytes. "
     "Negative offsets count from the end, a range reaching beyond either end is cut to the set, and an empty range gives 0 and an empty set.",
     ["inputs"], "every range on every bit pattern of up to 2 bytes and on patterns of up to 5 bytes covering every bit position",
     "The tests try a few ranges; errors depend on the positions of both ends within their bytes.", "bits", [("range validation", "bitset.go: validRange"), ("shifts", "bitset.go: Count, Sub")], SEQ, EX, T_ENUM, N_ENUM)
prop("B03", "Bit set And, Or, Xor, AndNot and Not are the bitwise operations",
     "And, Or, Xor, AndNot and Not return the bitwise result with every operand extended with zero bits to the longest one (Not keeps the size; with no further operand the set itself is returned). "
     "The operands are left unchanged and the result is independent of them, also when a set is its own operand.",
     ["inputs"], "every choice of up to 3 operands from sets of 0-2 bytes (all values of one byte pairwise), including the same set repeatedly; up to 130 operands in periodic patterns",
     "The tests use two or three operands of fixed lengths.", "bits", [("length handling", "bitset.go: And, op")], SEQ, EX, T_ENUM, N_ENUM)
prop("B04", "Bit set operations are atomic and never deadlock",
     "When several goroutines use the same bit sets at once, Set, Get, Count, Sub, Not, Bytes, Clear and the others each act atomically on their receiver, and And, Or, Xor and AndNot read each operand atomically; results agree with some sequential order. "
     "No combination of operands and concurrent writers deadlocks or races on memory.",
     ["schedules"], "every interleaving of 2-3 goroutines with 1-2 operations each on 1-2 shared sets, including repeated operands and opposite operand orders",
     "A deadlock needs a writer to arrive between two read locks.", "bits", [("read-write mutex", "bitset.go: mu"), ("operand copies", "bitset.go: snapshots")], CONC, MC, T_SCHED, N_SCHED)

# ---------------------------------------------------------------- ordered containers
prop("S01", "Skip list is a map",
     "After any sequence of Insert and Delete of keys that equal themselves (NaN does not) and for every choice of tower heights, Find returns the value last inserted for a key that is present and nothing for any other key, re-inserting a key replaces its value, deleting removes exactly that key, and the node count and emptiness are exact.",
     ["histories", "schedules"], "every sequence of inserts and deletes over 4-5 keys with every tower height up to 3-4 levels, until no new state is found; floating point and string keys",
     "The tests insert one range of keys with random heights; wrong links depend on the heights of neighbouring towers.", "skip",
     [("search path", "skiplist.go: Find, Insert, Delete"), ("tower heights", "skiplist.go: level generation")], SEQ, MC, T_BFS, N_BFS)
prop("S02", "Skip list traversal visits every element once in key order",
     "Starting at the smallest node, following Next visits every element exactly once in ascending key order and then comes back to the smallest; Prev does the reverse, and each undoes the other. "
     "The smallest and largest nodes are the ends of that order, and a search for the first element greater than or equal to a key finds exactly that element or none.",
     ["histories"], "every sequence of inserts and deletes over 5-6 keys with every tower height of 1-2 levels, until no new state is found",
     "Backward links are only exercised by the tests on lists that were built in order.", "skip",
     [("doubly linked bottom level", "skiplist.go: Next, Prev"), ("ends", "skiplist.go: GetSmallestNode, GetLargestNode")], SEQ, MC, T_BFS, N_BFS)
prop("S03", "Every level of the skip list links exactly the elements that reach it",
     "What makes a search skip is intact after any sequence of Insert, Delete and ChangeValue and for every choice of tower heights. In the drawing that String gives, one line per element in key order shows the element before it and, for each level the element reaches, "
     "the next element that reaches that level; the first and the last line show the first and last element of every level. Over all words of the random source a fair share, about a half, of the elements that reach a level reach the next.",
     ["histories", "inputs"], "every sequence of inserts, deletes and changes over 4-5 keys with every tower height up to 3, until no new state is found, all orders of 6-7 keys, long regular histories, all random words of repeated 12-bit patterns",
     "A link that skips too little or too much on an upper level leaves every answer right, or wrong only after a removal much later.", "skip",
     [("links of the levels", "skiplist.go: Insert, Delete"), ("ends of the levels", "skiplist.go: startLevels, endLevels"), ("heights", "skiplist.go: generateLevel")], SEQ, MC, T_BFS, N_BFS)
prop("T01", "Red-black tree is an ordered map",
     "After any sequence of Insert, Update, Delete and Clear the tree holds for each key the value last written: Get and Search, size and emptiness are exact, and Keys, Values and Nodes list every entry once in ascending order of the tree's ordering. Insert, Update and Delete return the value the key had before, the zero value when it had none; Update changes existing keys only, and deleting an absent key changes nothing.",
     ["histories"], "every sequence of inserts and deletes over 5-9 keys, until no new tree shape is found",
     "Rebalancing has many cases, each needing a particular shape; the tests build a few trees.", "rbt", [("insertion and deletion fix-up", "rbt.go")], SEQ, MC, T_BFS, N_BFS)
prop("T02", "Red-black tree stays balanced",
     "After any sequence of inserts and deletes, also on a sub-range view, no path from the root is more than twice as long as another, so that every search compares at most about 2*log2(n+1) keys.",
     ["histories"], "every sequence of inserts and deletes over 9-11 keys, until no new tree shape is found, and longer regular histories",
     "No test looks at the shape, and an unbalanced tree answers every query correctly.", "rbt", [("colours and rotations", "rbt.go")], SEQ, MC, T_BFS, N_BFS)
prop("T03", "Red-black tree range views and copies hold exactly the selected entries",
     "Sub-range views and filtered or copied trees contain exactly the entries whose keys lie in the requested range, with the requested bounds included or not, in order, and changing them leaves the original unchanged.",
     ["histories", "inputs"], "every range with every combination of inclusive bounds on every tree reachable over 4-7 keys",
     "The tests take one or two ranges of one tree.", "rbt", [("sub-trees", "rbt.go: SubTree and relatives")], SEQ, MC, T_BFS, N_BFS)
prop("H01", "Heap pops the minimum of what was pushed",
     "Pop always returns an element than which no other in the heap is less, and together the pops return exactly the elements given at construction and pushed, for any order of operations, any initial data and any strict ordering, duplicates included.",
     ["histories", "inputs"], "every initial slice and operation sequence up to the stated length over 3-4 distinct priorities with identity tags",
     "The tests pop one heap.", "heap", [("sifting", "heap.go: siftUp, siftDown"), ("building", "heap.go: heapSort")], SEQ, MC, T_BFS, N_BFS)
prop("D01", "Heap and tree operations take logarithmically many comparisons",
     "Push and Pop on a heap and Insert, Delete, Update, Get and Search on a red-black tree of n elements call the ordering function at most a small constant times log2(n) times, at every single call, whatever the order of elements, the history and the number of duplicates; building a heap from n elements takes at most a small constant times n*log2(n) calls.",
     ["histories", "inputs"], "every history over a small alphabet until no new state is found, every initial slice up to length 7-8, periodic and regular histories up to 1000 elements, six orders of up to 100 000 elements",
     "An operation that does too much answers correctly; the tests count nothing.", "cost",
     [("sifting", "heap.go: siftUp, siftDown, heapSort"), ("search path", "rbt.go: search, insert"), ("balance", "rbt.go: insertFix, deleteFix")], SEQ, MC, T_BFS,
     N_BFS + " The constants (2 for Push, 4 for the others) leave room for other ways of writing the same algorithms.")
prop("D02", "Concurrent map operations take constant time on average",
     "In every history of one goroutine on a concurrent map, all operations together make at most a constant number of steps per call, as the documentation promises (loads, stores and deletes run in amortized constant time): no pattern of storing, loading, swapping, comparing and deleting present, absent, new and old keys makes copying or promoting its inner maps cost more than that; a Range may cost a constant for each entry.",
     ["histories"], "every periodic history of up to 3-4 different calls out of 15, on maps of up to 600 keys that came about in 5 ways",
     "A map that copies itself too often gives the right answers; the tests use a few keys and count nothing.", "map",
     [("promotion after as many misses as entries", "map.go: missLocked"), ("copying the read map", "map.go: dirtyLocked"), ("promotion by Range", "map.go: Range")], ONE, MC, T_BFS,
     "Every periodic history within the stated bounds is run on the rewritten real code and its steps on atomics, locks and map entries are counted; histories without period and copying by other means are not covered. The constant (40) is more than twice what is needed.")
prop("D03", "Skip list operations take logarithmically many steps on average",
     "With tower heights drawn from random words, Insert, Find, FindGreaterOrEqual, ChangeValue and Delete on a skip list take, on average over any history, at most a constant times the logarithm of the number of elements steps for each call, whatever the order of the keys, the earlier growing and shrinking and the pattern of calls, as the documentation promises; smallest, largest, next and previous element and the number of elements of a skip list, and the length of a list, take a constant number of steps.",
     ["histories"], "every periodic history of up to 3 (thorough: partly 4) different calls out of 14, on lists of up to 2000 keys that came about in 8 ways, and every pair of 7 orders of inserting and deleting up to 100 000 keys, for 4 streams of random words",
     "A list that has degenerated gives the right answers; the tests count nothing.", "steps",
     [("where a search begins", "skiplist.go: findEntryIndex"), ("height of a new tower", "skiplist.go: generateLevel, Insert"), ("highest level in use", "skiplist.go: Delete"), ("length", "list.go: Len")], ONE, MC, T_BFS,
     "Every history within the stated bounds is run on the rewritten real code, in which every call of a function and every pass of a loop is counted. The random words are four fixed streams, since expected time is a statement about words that look random; library calls count as nothing. The constant (12, and 80) leaves room for other ways of writing the same algorithms.")
prop("G01", "Generic list behaves as the standard doubly linked list",
     "Every operation on one or two lists, also with elements that belong to another list or were removed, and on lists that were never initialised, has the same effect and result as in Go's container/list: the same order in both directions, lengths and element handles, elements of other lists left untouched.",
     ["histories"], "every operation sequence over two lists with up to 3-4 live elements and stale handles, up to the stated depth",
     "The tests are those of a few fixed sequences.", "list", [("ring of elements", "list.go: insert, remove, move")], SEQ, MC, T_BFS, N_BFS)
prop("G02", "Generic ring behaves as the standard ring",
     "Every operation, also joining and splitting rings, rings of one element and zero-valued or nil rings, has the same effect and result as in Go's container/ring.",
     ["histories"], "every sequence of Link, Unlink and Move on up to 5 ring elements, until no new configuration is found",
     "Link on the same ring and on different rings behave differently; the tests cover a few.", "ring", [("links", "ring.go: Link, Unlink, Move")], SEQ, MC, T_BFS, N_BFS)
prop("Q01", "Queue is first-in first-out",
     "Pop and Peek return the oldest element still in the queue, or the empty-queue error and the zero value when there is none; length, emptiness and the list of all elements agree with that order after every operation. "
     "Clear empties the queue, the iterator delivers every element in order, ends, and leaves the queue empty, and a queue generated from a slice holds its elements in order.",
     ["histories"], "every operation sequence up to the stated depth",
     "The tests run one sequence.", "queue", [("list and length kept in step", "fifo.go")], SEQ, MC, T_BFS, N_BFS)
prop("U01", "Set and map helpers agree with the built-in map",
     "The set's and the map helpers' results are those of the built-in operations: keys, values, items and entries list every element exactly once, copies are equal and independent, conversions invert each other with the last duplicate winning, and membership, length and clearing are exact (for keys that equal themselves, not NaN); adding and removing always report true. "
     "Two maps are equal exactly if they hold the same keys with equal values (equal by the given function), in whichever order they are given.",
     ["inputs", "histories"], "every pair of maps over 3 keys and 3 values, nil included, and every set history over 3 elements",
     "The tests compare one or two maps.", "set", [("iteration", "map.go, set.go")], SEQ, EX, T_ENUM, N_ENUM)
prop("U02", "Slice helpers return exactly the described slices and keep their inputs",
     "Copy, Merge, Unique, Reverse, Equal, Index, Contains and the sortedness tests, and their variants taking functions, return exactly what they describe for all slices: first occurrences in order, all of the first slice then all of the second, the first index or -1. "
     "Apart from Reverse, which works in place, none of them changes its inputs, and results share no memory with them that a caller could notice by writing to or appending to either.",
     ["inputs"], "every slice up to length 4-6 over 2-3 values, nil and empty, with spare capacity and overlapping memory",
     "The tests use literal slices without spare capacity.", "slice", [("copying", "slice.go: Copy, Merge, Unique")], SEQ, EX, T_ENUM, N_ENUM)
prop("U03", "Maximum and minimum helpers return an extreme element",
     "The maximum and minimum of two values and of collections are elements of the input than which no element is greater (less), the zero value for an empty collection; the variants taking a comparison return the first of several equivalent extremes. Inputs are not changed.",
     ["inputs"], "every collection up to length 5-6 over 4-5 values of signed, unsigned, floating point and string types, with identity tags",
     "The tests use one collection each.", "num", [("scan", "math.go")], SEQ, EX, T_ENUM, N_ENUM)
prop("U04", "Functions given to the helpers are called once per element, in order",
     "The helpers that take a function call it on the elements they describe and no further than needed: the searches on one element after the other up to the first that answers true, the comparison of slices on the pairs at equal places up to the first that differs, and not at all when the lengths differ, the comparison of maps at most once per key with the two values of that key, "
     "the sortedness test on neighbours, at most once each and none after the first out of order, the extremes on each later element and the extreme before it, UniqueWithFunc, List.Range and the tree's GetIf once on every element in order, and the ranges over a bit set or a batch result one by one, in order, until the function answers false.",
     ["inputs"], "every sequence of answers of the function for up to 8-11 elements, one answer unlike the others in slices up to 257-1025, every place to stop",
     "The tests look at results; a function called once too often or on another element shows only when it counts, is slow or remembers.", "func",
     [("slice helpers", "slice.go: IndexWithFunc, EqualWithFunc, UniqueWithFunc, IsSortedFunc"), ("extremes", "math.go: MaxBy, MinBy"), ("map equality", "map.go: EqualWithFunc"), ("ranges", "bitset.go, list.go, cache.go: Range; rbt.go: GetIf")],
     SEQ, EX, T_ENUM, N_ENUM)
prop("V01", "Pointer, emptiness and pair helpers are exact",
     "The zero-value, to-pointer, to-value and emptiness helpers and pairs return exactly the values given: a pointer made from a value points to an independent copy, a nil pointer gives the zero value, a value is empty exactly if it equals its type's zero value, and a pair unpacks to what was packed.",
     ["inputs"], "every value of a small domain for each kind of comparable type",
     "The tests use one value per type.", "type", [("generic zero value", "type.go")], SEQ, EX, T_ENUM, N_ENUM)

# ---------------------------------------------------------------- randomness
prop("N01", "Random numbers lie in range and are spread evenly",
     "For every raw random word the bounded generators return a value in [0, n), the unbounded signed ones a non-negative value, and the floating point ones a value in [0, 1); Int63n, Int31n and Intn panic for n <= 0. "
     "Over all raw words, Int31n, Intn and Int63n give every result equally often, and the other bounded generators reach every result for small n.",
     ["inputs"], "every 32-bit word for several n and boundary words for many n; evenly spaced 64-bit words",
     "The tests cannot choose the raw words: out-of-range or biased results appear for very few of them.", "rand", [("rejection", "fastrand.go: Int31n, Int63n")], SEQ, EX, T_ENUM + " of the raw random words", N_ENUM)
prop("N02", "Shuffle and Perm give permutations, each equally likely",
     "Perm(n) is always a permutation of 0..n-1, and Shuffle, also of slices, only ever exchanges elements within range, so that the result is a permutation of the input; Shuffle panics for negative n. "
     "If the raw random words are uniform, every one of the n! orders is equally likely.",
     ["inputs"], "every vector of evenly spaced raw words for n up to 5, every n up to 64 for chosen words",
     "A biased or out-of-range shuffle still passes a test that only checks the elements.", "rand", [("Fisher-Yates", "fastrand.go: Shuffle, Perm; slice.go: Shuffle")], SEQ, EX, T_ENUM + " of the raw random words", N_ENUM)
prop("N03", "Random Read fills exactly the given bytes",
     "Read fills every byte of the given slice, for every length and alignment, and reports its length and no error; it writes nothing outside the slice, and no byte position is constant over the raw random words.",
     ["inputs"], "every length up to 70 at every alignment with guard bytes on both sides, over many raw words",
     "The tests do not read random bytes; the function writes words through an unsafe pointer.", "rand", [("word and tail loops", "fastrand.go: Read")], SEQ, EX, T_ENUM, N_ENUM)

# ---------------------------------------------------------------- crypto
prop("C01", "AES encryption round-trips in every mode and leaves its inputs alone",
     "For every plaintext and every key of 16, 24 or 32 bytes, decrypting what was encrypted in the same mode (ECB, CBC, CTR) and encoding (hex, base64) gives the plaintext back, and the ciphertext is what that standard mode with PKCS padding defines, so that other implementations can read it. "
     "CBC and CTR take a fresh random initialisation vector for every call. Neither direction changes the caller's key, plaintext, ciphertext or the memory behind them.",
     ["inputs"], "every plaintext length up to 65 with several contents, every key size, mode and encoding, with spare capacity behind the plaintext",
     "The tests round-trip one text per mode.", "crypt", [("padding", "cryptox.go: pkcs5Padding"), ("modes", "cryptox.go: AES*Encrypt, AES*Decrypt")], SEQ, EX, T_ENUM, N_ENUM)
prop("C02", "Decryption rejects malformed input with an error",
     "Decryption never panics: text that is not validly encoded, ciphertexts that are too short or not whole blocks, keys of other sizes, and in ECB and CBC mode every padding that encryption never produces are reported as errors and give no data. Every well-formed ciphertext is accepted.",
     ["inputs"], "every final block padding of all 256 length bytes and all numbers of matching bytes, every length up to 50, every single-byte encoding damage",
     "The tests only decrypt valid ciphertexts.", "crypt", [("validation", "cryptox.go: pkcs5Unpadding, decode")], SEQ, EX, T_ENUM, N_ENUM)
prop("C03", "Digests are the standard ones",
     "The MD5, SHA-1, SHA-256, SHA-512 and FNV-1a helpers return, for every input, the standard digest (lower-case hex for the cryptographic ones), the same each time, without changing the input.",
     ["inputs"], "every input of up to 2 bytes and every length up to 300, against independent implementations and published vectors",
     "The tests check one input each.", "crypt", [("digests", "cryptox.go: Md5, Sha1, Sha256, Sha512, Fnv1a*")], SEQ, EX, T_ENUM, N_ENUM)
prop("W01", "Password check accepts exactly the described passwords",
     "A password is accepted exactly if its length is within the limits, it consists of printable non-space ASCII characters, it contains numerals, symbols and letters exactly when the flags ask for them, and it contains lower-case (upper-case) letters whenever the lower-case (upper-case) flag is set, while an upper-case letter "
     "alone never satisfies a request for lower-case letters nor the reverse. Letters of either case satisfy a request for just letters; flag bits with no meaning are ignored.",
     ["inputs"], "every string up to length 4 over the boundary characters of every class with every flag value and length limits, every single character",
     "The tests check a few passwords; there are 32 flag combinations and class boundaries.", "pass", [("classification", "password.go: CheckPassword")], SEQ, EX, T_ENUM, N_ENUM)

# ---------------------------------------------------------------- strings
prop("X01", "JSON strings decode back to the input",
     "The JSON encoding of every string is one valid JSON string that decodes to the input, with invalid UTF-8 bytes replaced by U+FFFD. With HTML escaping it contains no <, > or &, without it these and all other printable ASCII characters but quote and backslash appear literally; U+2028 and U+2029 are always escaped. The input is not changed.",
     ["inputs"], "every string up to length 3-4 over boundary bytes, every pair of bytes, every code point",
     "The tests encode a few strings.", "str", [("escaping tables", "stringx.go: StringMarshalJSON")], SEQ, EX, T_ENUM, N_ENUM)
prop("X02", "Combining spaces keeps all text and leaves no repeated space",
     "Combining spaces ends for every string, keeps every non-space character in order, never removes a whole run of spaces or puts one where there was none, and turns a run of one repeated space character into a single one. "
     "Blanks and tabs before a line feed and blanks next to tabs are dropped, and applying it again changes nothing.",
     ["inputs"], "every string up to length 6-8 over the space characters and letters",
     "The tests combine a few strings; the replacement rules interact.", "str", [("replacement to a fixed point", "stringx.go: SpaceInOne")], SEQ, EX, T_ENUM, N_ENUM)
prop("X03", "Entity and code point decoding replaces exactly the escapes",
     "Decoding HTML numeric entities (&#...; with any number of semicolons) or \\u escapes replaces each escape whose digits are valid in the given base with its character and leaves every other character of the text, including incomplete and invalid escapes and text between and after the escapes, exactly as it was. "
     "A \\u escape takes as many following digits as a 16-bit value has in that base, at most.",
     ["inputs"], "every concatenation of up to 5-6 fragments of escapes, digits, semicolons and text, bases 10, 16 and others",
     "The tests decode one text each, in which every escape is well separated.", "str", [("entities", "stringx.go: HTMLEntityToUTF8"), ("code points", "stringx.go: CodePointToUTF8")], SEQ, EX, T_ENUM, N_ENUM)
prop("X04", "Case conversion and indentation follow their rules for every string",
     "Snake case lower-cases the text and inserts an underscore before a capital exactly if some other character than a capital or underscore occurred since the last insertion; camel case capitalises the first letter unless a capital came before, and then joins words by replacing an underscore and the small letter after it by the capital. "
     "The lint variant drops underscores (one stays between two digits), capitalises each word and writes common initialisms such as ID and HTTP in capitals. Indenting puts the prefix in front of every line, the empty rest after a final line break excepted, and changes nothing else.",
     ["inputs"], "every string up to length 6-7 over letters of both cases, digits, underscores and others; all words of the initialism table in combinations",
     "The tests convert a few identifiers.", "str", [("conversion", "stringx.go: SnakeString, CamelString, LintCamelString"), ("indent", "stringx.go: Indent")], SEQ, EX, T_ENUM, N_ENUM)
prop("X05", "Zero-copy conversions show the same bytes",
     "Converting a string to a byte slice or back without copying gives the same length and bytes, shares memory instead of copying, and exposes no capacity beyond the data.",
     ["inputs"], "every substring and subslice of texts up to 64 bytes, empty ones included",
     "The tests do not convert substrings or slices with spare capacity.", "unsafe", [("unsafe views", "str20.go")], SEQ, EX, T_ENUM, N_ENUM)

# bounds that many checks share
LONGER = {}
for ids, text in [
    ("H01 G01 G02 Q01 S01 S02 T01 T02 T03 M02", "; long histories in systematic orders and sizes of up to 100 000 elements"),
    ("U01 U02 U03 B01 B02 B03 X05", "; regular inputs of sizes around the powers of two and ten up to 100 000"),
    ("K01 K02 K03", "; regular chains and batches of up to 10 000 keys"),
    ("X01 X02 X03 X04 W01", "; repetitions of short words with one disturbance, up to 17 000 times"),
    ("N02", "; sizes up to 100 001 with a few word patterns"),
    ("L01", "; long histories in systematic orders on caches of up to 1025 entries; usage limits of up to 70 001 reads, read to their end"),
    ("M01 M03 L02 B04 F03 E01", "; more goroutines with more calls in regular patterns under three deterministic schedulers and every deviation from them at one point"),
    ("R01 R02 R03 R04 R06", "; calls of up to 40 items under three deterministic schedulers and every deviation from them at one point"),
]:
    for i in ids.split():
        LONGER[i] = text
for _p in P:
    _p["text"] += LONGER.get(_p["id"], "")
    if _p["id"] == "L01":
        _p["statement"] += " A cache without room for an entry cannot be made: the constructor panics."
