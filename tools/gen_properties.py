#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })

# ---------------------------------------------------------------- queues, stacks, lists
prop("C01", "The bounded ring queue is FIFO and holds exactly its capacity",
 "For every capacity n >= 1 and every sequence of operations, a ring queue created with capacity n behaves as a FIFO queue of at most n elements: Enqueue succeeds and appends exactly when fewer than n elements are queued and otherwise returns false and changes nothing, and Dequeue, Peek and (when non-empty) Head yield the oldest element. IsEmpty, IsFull and Cap agree with the number of queued elements and n, and no operation in any history panics, however often the ring wraps around.",
 ["histories", "inputs"], "all capacities, all operation sequences, all element values",
 "The one test fills a ring once and drains it; it never wraps around, never fills beyond capacity, and never interleaves enqueues with dequeues.",
 ["dsx/slicex/queuex/queuex.go"],
 [("head/tail indices modulo the number of slots", "Ring.Enqueue, Ring.Dequeue"), ("one spare slot separates full from empty", "New, IsFull, IsEmpty")],
 ["results of Enqueue/Dequeue/Peek/Head/IsEmpty/IsFull/Cap"])
prop("C02", "The linked queue is FIFO over every history",
 "For every sequence of operations the linked queue behaves as an unbounded FIFO queue: Dequeue and Peek yield exactly the oldest element not yet dequeued, and report false exactly when none remains, and IsEmpty agrees. No element is lost, duplicated or reordered even though nodes are recycled through a pool, and no operation panics.",
 ["histories", "inputs"], "all operation sequences, all element values, every node-recycling choice the pool may make",
 "The package has no tests; recycling-dependent corruption needs drain-and-refill histories and a pool that really returns the old nodes.",
 ["dsx/linkedx/queuex/queuex.go"],
 [("singly linked chain head->tail with recycled nodes", "Queue.Enqueue, Queue.Dequeue")],
 ["results of Enqueue/Dequeue/Peek/IsEmpty"])
prop("C03", "The linked stack is LIFO over every history",
 "For every sequence of operations the linked stack behaves as an unbounded LIFO stack: Pop and Peek yield exactly the most recently pushed element not yet popped and report false exactly when the stack is empty, and Len is the number of elements held. This holds whatever nodes the internal pool hands back, and no operation panics.",
 ["histories", "inputs"], "all operation sequences, all element values, every node-recycling choice the pool may make",
 "The package has no tests.",
 ["dsx/linkedx/stackx/stackx.go"],
 [("head pointer, recycled nodes and a length counter", "Stack.Push, Stack.Pop")],
 ["results of Push/Pop/Peek/Len"])
prop("C04", "The slice stack is LIFO over every history",
 "For every sequence of operations the slice-backed stack behaves as an unbounded LIFO stack: Pop and Peek yield exactly the most recently pushed element not yet popped and report false (with the zero value) exactly when the stack is empty, and Len and IsEmpty agree with the number of elements held.",
 ["histories", "inputs"], "all operation sequences, all element values",
 "The test pushes up to three values and then pops them all; it never interleaves pushes with pops or uses Peek, Len or IsEmpty.",
 ["dsx/slicex/stackx/stackx.go"], [("append and reslice at the end", "Stack.Push, Stack.Pop")],
 ["results of Push/Pop/Peek/Len/IsEmpty"])
prop("C05", "The deque delivers both ends correctly over every history",
 "For every sequence of PushFront, PushBack, PopFront, PopBack, PeekFront and PeekBack, the deque behaves as a double-ended queue: each pop or peek yields exactly the element at that end, and reports false exactly when the deque is empty. This holds across internal block boundaries, when the deque is emptied and refilled, and whatever blocks the internal pool recycles; no operation panics.",
 ["histories", "inputs"], "all operation sequences, including ones that cross the 64-element block boundary and drain the deque from either end; all element values",
 "The test pushes 1000 elements on both sides and pops as many, symmetrically; it never empties one end, drains and refills, or pops past a block pushed from the other side.",
 ["dsx/linkedx/dequex/dequex.go"],
 [("doubly linked 64-slot blocks with start/end marks", "Deque.PushFront, PushBack, PopFront, PopBack"), ("block recycling through a pool", "Deque.pool")],
 ["results of the six operations"])
prop("C06", "The linked list matches a sequence model over every history",
 "For every sequence of operations the linked list behaves as a sequence: Append adds at the end, Insert(i) with 0 <= i <= Len places the element at position i and shifts the rest, Remove(i) and At(i) with 0 <= i < Len return (and Remove deletes) the i-th element, and Iterate visits the elements in order until its callback returns false. An Insert, Remove or At with an index outside those ranges changes neither the contents nor Len (Remove and At report false), and Len always equals the number of elements At and Iterate show.",
 ["histories", "inputs"], "all operation sequences, all indices (negative and too large included), all element values, every node-recycling choice",
 "The test does one batch of appends, ten inserts and ten removals on a long list; it never inserts into an empty list, at the end, or out of range, removes the last element, appends afterwards, or looks at Len.",
 ["dsx/linkedx/listx/listx.go"],
 [("head/tail/length bookkeeping", "List.Append, Insert, Remove")],
 ["results of Append/Insert/Remove/At/Iterate/Len"])
prop("C07", "The slice list matches a sequence model over every history",
 "For every sequence of operations the slice-backed list behaves as a sequence: Append adds at the end, Insert(i) with 0 <= i <= Len places the element at position i and shifts the rest, Remove(i) and At(i) return (and Remove deletes) the i-th element for 0 <= i < Len and otherwise report false with the zero value and change nothing. Iterate visits the elements in order and stops when its callback returns false, and Len is the number of elements.",
 ["histories", "inputs"], "all operation sequences, all indices, all element values",
 "The package has no tests.",
 ["dsx/slicex/listx/listx.go"], [("append/copy shifting", "List.Insert, List.Remove")],
 ["results of Append/Insert/Remove/At/Iterate/Len"])

# ---------------------------------------------------------------- slicex
prop("C08", "Slice edits equal their sequence meaning and never touch arguments",
 "For every slice and every argument, Splice, Expand, Insert, Cut, Delete, Push, Pop, UnShift, Shift and DeleteReplace leave exactly the documented sequence (indices are clamped to the slice, a reversed pair of bounds is swapped, Delete of an index outside the slice changes nothing, DeleteReplace moves the last element into the clamped position and does nothing on an empty slice) and never panic. The elements passed as arguments are inserted unchanged, even when they come from a slice with spare capacity or from the edited slice itself, and no memory of the caller's argument slice is written.",
 ["inputs", "histories"], "all slices (length, capacity, values), all index arguments over the full int range, all inserted values and their aliasing",
 "The tests sample about sixty concrete calls with fresh literal arguments; none uses extreme indices, spare capacity, or aliased arguments.",
 ["dsx/slicex/slicex.go"],
 [("index clamping", "preprocIndexException"), ("append-based replacement of a range", "Slice.Splice")],
 ["resulting contents, returned values, the caller's argument array"])
prop("C09", "Slice access, resizing and copying are total and exact",
 "For every slice and every int argument, Get and Set act on the index clamped to the slice (Get of an empty slice is the zero value, Set of an empty slice does nothing), Slice(i, j) keeps exactly the elements between the clamped bounds (a negative j counts from the end, reversed bounds are swapped), Extend appends exactly max(size, 0) zero values, Clear empties, and Len and Finalize report the contents. Copy yields an equal slice whose later modification never shows in the original, or the reverse, and none of these calls panics.",
 ["inputs", "histories"], "all slices and all index/size arguments over the full int range (sizes bounded by memory)",
 "The tests sample a dozen index pairs; the clamping arithmetic over the whole int range and the independence of copies are not exercised.",
 ["dsx/slicex/slicex.go"], [("index clamping", "preprocIndexException"), ("fresh backing array", "Slice.Copy")],
 ["resulting contents and returned values"])
prop("C10", "Rotate, Reverse, Filter, Repeat and Shuffle rearrange exactly",
 "For every slice, Rotate(n) is the left rotation by n modulo the length for every int n of either sign, Reverse is the exact reversal, Filter keeps exactly the elements its predicate accepts in their order (calling it once per element, in order), Repeat(n) is the contents repeated max(n, 0) times, and Shuffle leaves a permutation of the contents. None of them panics, whatever the argument and the spare capacity of the slice.",
 ["inputs"], "all slices (length, capacity, values), all int arguments (repetition bounded by memory), all predicates, every outcome of the random source",
 "The tests rotate lists of length 1 and 3 by -4..4 and reverse four lists; Filter, Repeat and Shuffle are untested, and neither extreme rotation counts nor spare capacity are.",
 ["dsx/slicex/slicex.go"], [("append-based rotation", "Slice.Rotate"), ("in-place compaction", "Slice.Filter")],
 ["resulting contents"])
prop("C11", "Split and Batch partition a slice; search and traversal are exact",
 "For every slice and every list of non-negative sizes, Split returns pieces of those sizes (cut short at the end of the slice) followed by the non-empty remainder, so that the pieces concatenate to the slice; a negative size moves the position back, never before the start, and yields the elements passed over. Batch(n) cuts the slice into consecutive pieces of max(n, 1) elements with a shorter last one, IndexOf returns the first accepted index or -1, Contains whether there is one, Each and ForEach visit every element once in order, and Join writes the elements in order with the separator between them; none of these panics.",
 ["inputs"], "all slices, all size lists over the full int range, all predicates and separators",
 "The tests sample about twenty-five Split and Batch calls; overflow of position plus size, and IndexOf, Contains, Each, ForEach and Join, are not covered.",
 ["dsx/slicex/slicex.go"], [("running position with clamping", "Slice.Split"), ("Batch reduces to Split", "Slice.Batch")],
 ["returned pieces, indices and strings"])

# ---------------------------------------------------------------- maps, sets
prop("C12", "The skip-list map is a correct ordered map for every tower height",
 "For every sequence of operations over totally ordered keys (no NaN), and whatever tower heights its random source yields, the skip-list map behaves as a map: Get returns the value last Set for the key and reports false for a key never set or deleted since, Del reports exactly whether the key was present, and Len is the number of keys. Keys and Values list the live entries in strictly ascending key order, ToMap and String show the same entries, and Clear empties the map.",
 ["histories", "inputs"], "all operation sequences, keys and values, and all tower heights the random source can produce",
 "The test runs one fixed script over six string keys with whatever heights one seed gives.",
 ["dsx/mapx/sklmapx/sklmapx.go", "dsx/mapx/sklmapx/splitmix64.go"],
 [("search collects the predecessors on every level", "skl.search"), ("tower linking and unlinking", "skl.insert, skl.delete")],
 ["results of Set/Get/Del/Len/Keys/Values/ToMap/String/Clear"])
prop("C13", "Skip-list iterators visit every entry once, in order, and end cleanly",
 "For every skip-list map, an iterator yields each live entry exactly once in strictly ascending key order with its current value and then reports false, on the first call after the last entry and without ever panicking. Seek of a present key returns it with its value and continues with its successors, Seek of an absent key reports false, and Rewind restarts from the smallest key.",
 ["histories", "inputs"], "all maps, all tower heights, all sequences of Next, Seek and Rewind",
 "The test walks one list of three and one of four entries and stops at the first false.",
 ["dsx/mapx/sklmapx/sklmapx.go"], [("bottom-level chain between sentinels", "Iterator.Next, Iterator.Seek")],
 ["results of Next/Seek/Rewind"])
prop("C14", "The ordered map keeps its hash index and its order consistent",
 "For every sequence of operations over totally ordered keys (no NaN), the ordered map behaves as a map whose Keys, Values and Range list exactly the live entries in ascending key order, with the value last set for each key. Len, Get, Keys, Values and Range always agree with each other, Set of an existing key only replaces its value, Del of an absent key changes nothing, and Range stops as soon as its callback asks to.",
 ["histories", "inputs"], "all operation sequences, keys, values and tower heights",
 "The package has no tests; it keeps two structures in step, which only a history of overwrites, deletions and clears can upset.",
 ["dsx/mapx/ordmapx/ordmapx.go", "dsx/mapx/sklmapx/sklmapx.go"],
 [("a hash map and a skip list updated together", "OrdMap.Set, OrdMap.Del, OrdMap.Clear")],
 ["results of Len/Get/Set/Del/Clear/Keys/Values/Range"])
prop("C15", "The concurrent map is linearizable and race-free",
 "For every set of goroutines using one concurrent map, each operation appears to take effect at one instant between its call and its return: Get, Has, Size, Keys and Values show a state the completed and overlapping Set, Delete and Clear calls explain. There is no data race and no deadlock, and used by one goroutine it behaves as an ordinary map (Get of an absent key is the zero value).",
 ["schedules", "inputs", "histories"], "all interleavings of the operations of several goroutines, all keys and values",
 "The package has no tests, and a test samples a few schedules only.",
 ["dsx/mapx/syncmapx/syncmapx.go"], [("a read-write lock around every access", "Map.Get ... Map.Clear")],
 ["operation results, absence of races and deadlocks"])
prop("C16", "Bit sets implement set algebra for every width and position",
 "For every unsigned element type and all positions >= 0, Set, Clear and Toggle change exactly the listed bits and no others, positions at or beyond the width are ignored, and Test reports whether at least one listed bit is set (false for none). IsEmpty and IsFull hold exactly when no bit, respectively every bit of the width, is set, and SetAll, ClearAll and ToggleAll set, clear and invert every bit.",
 ["inputs", "histories"], "all element widths (8, 16, 32, 64 bits), all set contents, all lists of non-negative positions",
 "The package has no tests; the state space is every 64-bit pattern times every position.",
 ["dsx/setx/bitsetx/bitsetx.go"], [("shift-and-mask on one unsigned word", "BitSet.Set, Clear, Toggle, Test")],
 ["results of Test/IsEmpty/IsFull after each operation"])

# ---------------------------------------------------------------- algorithms, functional
prop("C17", "Binary search finds exactly the insertion point",
 "For every slice in ascending order (with duplicates, empty, any ordered type without NaN) and every target, Search returns the smallest index whose element is not less than the target, the length if there is none, and true exactly when the element there equals the target. SearchCustom does the same for every slice sorted consistently with the given three-way comparison.",
 ["inputs"], "all sorted slices, targets and comparison functions",
 "The package has no tests.",
 ["algox/searchx/searchx.go"], [("three-way comparison handed to a library binary search", "Search, SearchCustom")],
 ["the returned index and flag"])
prop("C18", "Sorting yields an ordered permutation in the requested direction",
 "For every slice (no NaN), Sort, SortReverse, SortStable, SortStableReverse, SortCustom and SortStableCustom leave a permutation of the input ordered as requested: ascending, descending for the Reverse variants and for Sort with reverse set, or by the given strict ordering. The stable variants keep equal elements in their original order, and IsSorted, IsSortedReverse and IsSortedCustom report true exactly for slices already in the corresponding order (equal neighbours allowed).",
 ["inputs"], "all slices and all strict weak orderings",
 "The package has no tests.",
 ["algox/sortx/sortx.go"], [("comparison closures handed to library sorts", "Sort ... IsSortedCustom")],
 ["the slice after sorting, the IsSorted results"])
prop("C19", "Option and Result dispatch to exactly the matching branch",
 "For every value, matching on an Option calls exactly one of its two callbacks exactly once: the first with the stored value for Some (zero values included), the second for None; matching on a Result calls exactly the success callback with the stored value for Ok and exactly the failure callback with the stored error for Err. The results of the called callback are returned unchanged.",
 ["inputs"], "all stored values and errors (zero values included) and all callbacks",
 "The packages have no tests.",
 ["functionalx/optionx/optionx.go", "functionalx/resultx/resultx.go"],
 [("an explicit presence flag", "Option.Match, Result.Match")], ["callback invocations and returned values"])
prop("C20", "A lazy value is constructed once and seen whole by everyone",
 "However many goroutines call Get on one lazy value, and however their calls interleave, the constructor runs exactly once, and only after the first Get. Every Get returns the value the constructor returned, fully constructed and without a data race, and no Get blocks forever.",
 ["schedules", "inputs"], "all interleavings of several Get calls, all constructed values",
 "The package has no tests; double construction or an early read needs a particular interleaving.",
 ["functionalx/lazyx/lazy.go"], [("a once guard around construction", "Lazy.Get")],
 ["constructor call count, Get results, absence of races"])

# ---------------------------------------------------------------- sync, pools
prop("C21", "Locking on a value gives mutual exclusion and always runs the callback",
 "For all goroutines that lock on the same pointer, the callbacks run exactly once each, with that pointer as argument, never two at the same time, and with each seeing the effects of those before it without a data race. Every call returns once the callbacks before it have returned, the pointed-to value is changed by nothing but the callbacks, and callbacks on different pointers do not block one another.",
 ["schedules", "inputs"], "all interleavings of lock calls by several goroutines on equal and different pointers, all contents of the pointed-to value",
 "The package has no tests; exclusion is a statement about all schedules.",
 ["syncx/lockx/lockx.go"], [("an atomic spin on the pointed-to word", "Lock")],
 ["callback invocations and overlap, the value afterwards, termination"])
prop("C22", "The typed pool never hands one object to two holders",
 "Once initialised, every Get returns a usable object: either one built by the given constructor for this call or one that was Put earlier and has not been handed out since. However goroutines interleave Get and Put, no object is ever held by two users at once, and there is no data race.",
 ["schedules", "histories"], "all interleavings and sequences of Get and Put, every reuse decision of the underlying pool",
 "The package has no tests; reuse depends on the runtime's scheduling and garbage collection.",
 ["syncx/syncpoolx/syncpoolx.go"], [("a typed wrapper over the runtime pool", "Pool.Init, Get, Put")],
 ["identity of the objects handed out"])
prop("C23", "The goroutine pool runs every accepted task exactly once",
 "For every interleaving of Run calls, workers, the idle collector and Stop, a task for which Run returned true is handled exactly once, with its own value, and a task for which Run returned false is never handled. After Stop has returned Run always returns false, tasks accepted before are still handled, and no schedule panics, races on memory or deadlocks.",
 ["schedules", "histories", "inputs"], "all interleavings of submitters, workers, idle collector ticks and Stop, within the stated numbers of each; all task values",
 "The tests submit 100000 tasks in whatever schedule occurs and look only at totals; the windows between collector, hand-over and Stop are a few instructions wide.",
 ["poolx/gopoolx/timedpool.go", "syncx/syncpoolx/syncpoolx.go"],
 [("one buffered channel per worker, handed over under the lock", "Run, free, tworker"), ("idle collector closes the channels of expired workers", "start")],
 ["handler invocations, Run results"])
prop("C24", "The goroutine pool honours its worker limit and leaves nothing behind",
 "At every moment of every schedule the number of workers, preheated ones included, is at most the configured maximum, and Run returns false rather than exceed it while it accepts whenever an idle worker or room for a new one exists. After Stop, or after the idle timeout without work, every worker that has finished its task terminates and Workers returns to zero, Stop may be called again or concurrently without blocking forever, and construction rejects a non-positive limit, idle timeout or collection period and a nil handler.",
 ["schedules", "histories", "configurations"], "all interleavings within the stated numbers of submitters, workers and collector ticks, all configurations (limits, preheat counts, timeouts)",
 "The tests use an unlimited pool, so the limit is never reached, and check the worker count after two seconds of one schedule.",
 ["poolx/gopoolx/timedpool.go"],
 [("worker counter under the lock", "Run, free, tworker"), ("binary search for expired workers", "start"), ("parameter validation", "NewTimedPool")],
 ["Workers(), Run and constructor results, goroutines left after Stop"])

# ---------------------------------------------------------------- os, io
prop("C25", "Shutdown handling survives every sequence of termination signals",
 "After a kill-signal handler is installed, the first of any sequence of interrupt, quit and terminate signals runs the user's handler exactly once and closes the returned channel exactly once, after the handler has returned. Further signals, however many and whenever they arrive, neither crash the process, nor run the handler again, nor close the channel again; without a signal the handler never runs and the channel stays open.",
 ["fault_sequences", "schedules"], "all sequences and timings of the three signals, within the stated number",
 "The package has no tests; a second Ctrl-C during shutdown is the usual case in practice.",
 ["osx/closex/closex.go"], [("a goroutine ranging over the signal channel", "HandleKillSig")],
 ["handler invocations, state of the returned channel, absence of panics"])
prop("C26", "Scoped closing closes everything exactly once and reports every error",
 "For every list of closers and every body, running the body closes each closer exactly once, in the order given, after the body has ended - also when the body panics, in which case the panic still reaches the caller. The returned list contains exactly the errors the closers returned, in order, and is nil when there were none.",
 ["inputs", "fault_sequences"], "all lists of closers, every choice of which of them fail, bodies that return and that panic",
 "The package has no tests.",
 ["iox/usingx/using.go"], [("a deferred loop over the closers", "Close")],
 ["Close calls on the closers, returned errors, propagated panics"])
prop("C27", "The close manager closes all and reports an error only if one occurred",
 "For every sequence of appended closers, Close closes each of them exactly once in the order appended, continuing past failures, and returns nil exactly when none failed; otherwise it returns an error from which the individual errors can be recovered in order, also through wrapping. Append and Close may be called from several goroutines without a race or deadlock, and an arbitrary other error is not mistaken for such a list.",
 ["inputs", "fault_sequences", "schedules"], "all lists of closers, every choice of which fail, interleavings of Append and Close",
 "The package has no tests.",
 ["iox/managerx/closex/manager.go", "iox/managerx/closex/types.go", "iox/managerx/closex/default.go"],
 [("a locked list of closers and an error list", "CloseManager.Append, CloseManager.Close, AsErrs")],
 ["Close calls on the closers, the returned error, AsErrs"])
prop("C28", "The write decoupler is a bounded FIFO that never stalls its reader",
 "For every buffer size >= 1 and every history of writes and reads by one goroutine, a non-empty write is buffered exactly when fewer than size messages are buffered, and otherwise goes to the drop callback once, whose result is returned; an empty write always goes to the drop callback. Reads deliver exactly the buffered messages, in order, each once and with the bytes written at the time of the call, report false exactly when nothing is buffered, and always return.",
 ["histories", "inputs"], "all buffer sizes, all histories of writes and reads, all message contents",
 "The tests use sizes 1 and 2 with four short scripts; larger sizes and partial drains after drops are never reached.",
 ["iox/decouplex/decouple.go"],
 [("ticket counter modulo size", "Decoupler.Write"), ("slot states empty/busy/filled", "locktab"), ("read cursor", "Decoupler.Next")],
 ["drop callback calls, Write results, messages delivered by Next"])
prop("C29", "Concurrent writers to the decoupler lose, tear and duplicate nothing",
 "With any number of goroutines writing and one reading, every write ends either in exactly one delivery of exactly its bytes or in exactly one call of the drop callback, never both and never neither once the buffer is drained. Messages of one writer are delivered in the order it wrote them, no data race touches message bytes, and no schedule deadlocks or leaves the reader waiting while every writer has returned.",
 ["schedules", "histories", "inputs"], "all interleavings of several writers and one reader within the stated numbers, all message contents",
 "The tests are single-threaded.",
 ["iox/decouplex/decouple.go"],
 [("compare-and-swap on slot states", "Decoupler.Write"), ("message count", "_len")],
 ["messages delivered, drop callback calls, termination"])

# ---------------------------------------------------------------- conversions
prop("C30", "Integer and boolean conversions are exact and round-trip through text",
 "For all built-in integer types, converting between them equals Go's own conversion, so every value the target type can represent is preserved; the text of an integer is its canonical decimal form and parses back to the same value for every value of every width, and true/false convert to 1/0 and \"true\"/\"false\" and back. Every built-in pair reports success.",
 ["inputs"], "all values of all ten integer types and bool, all pairs of types",
 "The package has no tests, and there are about 190 registered pairs with up to 2^64 inputs each.",
 ["typex/convx/converters.go", "typex/convx/init.go"],
 [("generic conversion functions", "integerToInteger, intToString, stringToInteger, ..."), ("registration of every pair", "init")],
 ["results of Into/IntoOr"])
prop("C31", "Float, byte and rune conversions follow Go's conversions",
 "For every value, converting between integers and floats in range, and between float widths, equals Go's own conversion, a float is true exactly when it is not zero, strings and byte slices convert to each other without loss, and strings and rune slices convert as Go does (invalid UTF-8 becoming the replacement character). Every built-in pair reports success.",
 ["inputs"], "all float, byte-slice, string and rune-slice values (lengths bounded)",
 "The package has no tests.",
 ["typex/convx/converters.go", "typex/convx/init.go"],
 [("generic conversion functions", "integerToInteger, floatToBool, stringToBytes, runesToString, ...")],
 ["results of Into/IntoOr"])
prop("C32", "The conversion registry finds exactly what was registered",
 "For every sequence of Register and Unregister over any types, interface types included, Into applies exactly the converter last registered for that exact pair of types and reports true, and otherwise returns the zero value and false without calling any converter; Exists agrees with Into and IntoOr falls back to the given default exactly when Into fails. Concurrent use is free of data races and each lookup sees one complete registration.",
 ["histories", "schedules", "inputs"], "all histories of registrations over several type pairs (including interface types and distinct types with the same underlying type), interleavings of registration and lookup",
 "The package has no tests.",
 ["typex/convx/convx.go"], [("two-level table keyed by reflected types under a read-write lock", "Register, Unregister, Exists, Into")],
 ["results of Exists/Into/IntoOr"])

# ---------------------------------------------------------------- crypto
prop("C33", "Encryption round-trips and uses a fresh random IV every time",
 "For every key and every message, decrypting what CTR, GCM or (for whole 16-byte blocks) CBC encryption produced with the same key returns exactly the message, and the caller's message and key are not modified. The output begins with the full-length IV or nonce drawn for that very call from the system's cryptographic random source, whose failure is returned as an error without any ciphertext, and the cipher key depends on the whole key given.",
 ["inputs", "fault_sequences"], "all keys, messages (lengths bounded) and outcomes of the random source, failures included",
 "The package has no tests; IV reuse or a partly used key is invisible to a round-trip test.",
 ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"],
 [("IV generation and prefixing", "EncryptCBC, EncryptCTR, EncryptGCM"), ("key derivation by hashing", "Encrypt*, Decrypt*")],
 ["ciphertexts, decrypted messages, errors"])
prop("C34", "Decryption of arbitrary input never panics and GCM rejects forgeries",
 "For every byte string given as ciphertext and every key, decryption in each mode returns either a plaintext or an error and never panics, however short or misaligned the input; CBC encryption of a message that is not a whole number of blocks likewise returns an error. GCM decryption succeeds only for an unmodified nonce and ciphertext that GCM encryption produced under the same key.",
 ["inputs"], "all ciphertexts (lengths bounded, shorter than one IV and misaligned ones included) and keys",
 "The package has no tests; hostile ciphertexts are what the API receives from outside.",
 ["cryptox/aesx/cbcx.go", "cryptox/aesx/ctrx.go", "cryptox/aesx/gcmx.go"],
 [("splitting IV and ciphertext", "DecryptCBC, DecryptCTR, DecryptGCM"), ("authentication", "DecryptGCM")],
 ["errors, absence of panics"])
prop("C35", "Bcrypt hashing accepts exactly the passwords it can distinguish",
 "Encrypt hashes every password of at most 72 bytes and rejects every longer one with the length error without hashing it. Decrypt returns true without error exactly when the hash matches the given password as a whole, and false with an error otherwise; in particular a password longer than 72 bytes never verifies, even if its first 72 bytes are the hashed password.",
 ["inputs"], "all passwords (lengths around and beyond the limit included) and hash strings",
 "The package has no tests; the truncation collision needs a password just beyond the limit.",
 ["cryptox/bcryptx/bcryptx.go"], [("length check", "Encrypt"), ("library comparison", "Decrypt")],
 ["results of Encrypt and Decrypt"])
prop("C36", "A password hash verifies exactly the password it was made from",
 "For every password and every security level, a hash made by Hash or HashBase64 verifies with that password and with no other, under the parameters of its own level, which are recorded in the hash; an unknown level is rejected. Every hash uses a fresh salt of 16 bytes from the system's cryptographic random source (its failure is reported and no hash returned), the 32-byte Argon2id output for that level's cost parameters, and levels differ from each other in their parameters.",
 ["inputs", "fault_sequences"], "all passwords, all security levels (including invalid ones), all outcomes of the random source",
 "The tests hash one password and verify the same password; wrong passwords, salts, random-source failures and parameters are never checked.",
 ["cryptox/passhashx/passhash.go", "cryptox/passhashx/alg.go", "cryptox/passhashx/internal/passhash.vstruct.go"],
 [("level to parameter mapping", "security_level, alg_arr"), ("serialization of parameter, salt and hash", "New_PasswordHash"), ("constant-time comparison", "Verify")],
 ["results of Hash/Verify/HashBase64/VerifyBase64"])
prop("C37", "Verification of arbitrary hash strings fails safely",
 "For every byte string or base64 text given as a stored hash, verification returns nil or an error and never panics: malformed framing is reported as invalid, an unknown parameter as an unknown algorithm, and a wrong or truncated hash as a mismatch. No input that Hash did not produce for that password verifies, unless it carries the exact Argon2id output for the salt and parameter it names.",
 ["inputs"], "all byte strings as stored hashes (lengths bounded), all passwords",
 "The tests only verify hashes the library just produced.",
 ["cryptox/passhashx/passhash.go", "cryptox/passhashx/internal/passhash.vstruct.go"],
 [("offset validation before slicing", "Vstruct_Validate"), ("table lookup with bounds", "Verify")],
 ["results of Verify/VerifyBase64, absence of panics"])

# ---------------------------------------------------------------- time
prop("C38", "Time truncation returns the start of the enclosing unit",
 "For every Unix time within the years 1 to 9999, truncation to second, minute, hour, day, week, month or year returns the largest start of such a unit in UTC that is not after the given time, weeks starting on Monday. The result is idempotent and monotone in its argument, also before 1970, and Truncate does the same for every positive number of seconds, counted from Monday, January 1 of year 1.",
 ["inputs"], "all times in the range and all unit lengths (bounded to what a duration can express)",
 "The package has no tests; leap years, century years and negative times are sparse in the input space.",
 ["timex/truncatex/truncatex.go", "timex/timex.go"],
 [("duration truncation since year 1", "Truncate"), ("calendar reconstruction", "TruncateYear, TruncateMonth")],
 ["the returned Unix time"])
prop("C39", "Interval intersection finds the consensus interval, in any order",
 "For two or more intervals with non-negative bands (and no overflow in offset plus or minus band), with f the smallest number of falsetickers below half of them for which it is possible, the result is ok and spans exactly from the smallest to the largest point covered by all but at most f of the intervals, with at most f midpoints outside that span; if there is no such f it is not ok. The result does not depend on the order of the arguments, one interval yields its own bounds, and none yields not ok.",
 ["inputs"], "all lists of intervals (number bounded), all offsets and bands without overflow, all argument orders",
 "Four fixed calls are tested, without ties between bounds and midpoints, without disjoint intervals, and never with enough intervals to tolerate a falseticker.",
 ["timex/intersectionx/intersectionx.go"],
 [("sweep over sorted edges", "intersection"), ("edge ordering", "iSlice.Less")],
 ["the returned bounds and flag"])
prop("C40", "A sleeper wakes no earlier than asked, and always when woken",
 "For every schedule, SleepFor(n) (n counted in seconds) and SleepUntil(t) return true no earlier than asked unless Wakeup was called meanwhile, and SleepForever returns only after a Wakeup. A Wakeup that returns true makes the sleep in progress return, a Wakeup with nobody sleeping returns false and does not disturb later sleeps, and a second sleep on a busy sleeper returns false at once; there is no data race.",
 ["schedules", "inputs"], "all interleavings of sleeps and wakeups by several goroutines, all durations and clock behaviours",
 "There is no test of the package itself; the lost-wakeup window is a few instructions wide.",
 ["timex/sleepx/sleepx.go"],
 [("a busy flag", "slept"), ("a cancelable context replaced on each wakeup", "Wakeup")],
 ["return values and times of the sleeps"])
prop("C41", "The time differ reports exactly the measured instants",
 "For every history of Start and End on every clock behaviour, GetStart and GetEnd return the instants of the last Start and End, in UTC, GetDiff is the time elapsed between them, and it is not negative when End was called after Start. A later Start or End replaces only its own instant.",
 ["histories", "inputs"], "all histories of Start and End, all clock readings",
 "The only test has no assertion.",
 ["timex/diffx/diffx.go", "timex/timex.go"], [("two stored instants", "Differ.Start, Differ.End, Differ.GetDiff")],
 ["results of GetDiff/GetStart/GetEnd"])

# ---------------------------------------------------------------- config, cmd
prop("C42", "Optional parameters are applied in order, each to the previous result",
 "For every constructor and every list of option functions, the options are called exactly once each, in the order given, each receiving exactly what the previous one returned (the first one nil), and the constructor is called exactly once, last, with the result of the last option (nil without options). Its result is returned unchanged.",
 ["inputs"], "all lists of options (number bounded), every choice of what each returns",
 "The package has no tests.",
 ["configx/optionalx/optionalx.go"], [("a left fold over the options", "Parameter")],
 ["calls and their arguments, the returned value"])
prop("C43", "The module tools run once in every directory and nowhere else",
 "For every directory tree, autotidy and autoupdate run their go command exactly once in each directory reachable without entering a directory named vendor or .git, with that directory as working directory, never inside an excluded one and never for a plain file. Afterwards the working directory is the original one.",
 ["inputs", "fault_sequences"], "all directory trees (number of entries bounded), all names",
 "The commands have no tests.",
 ["cmd/autotidy/autotidy.go", "cmd/autoupdate/autoupdate.go"],
 [("a directory walk that changes into each directory and back", "main")],
 ["working directory and arguments of each command run"])

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
