LIN = "linearizability is decided per history (porcupine); " + SCHED
CLOCK = "instants are exact because the clock is virtual; " + SCHED

prop("C23", "A Set behaves as a mathematical set",
 "After any sequence of calls a Set contains exactly the elements that were put in (at creation, singly or in bulk) and not removed or cleared since. Membership of one, all or any of several elements, the size, the listing (each element once) and equality with another set all agree with that, and a clone is equal and independent. Listings handed out do not follow later changes and changing them does not change the set.",
 ["inputs", "histories"], "all sequences of operations over several sets, element types int, string, float, struct and interface, empty and repeated arguments",
 "the test calls each operation once or twice on two integers", ["collections/set.go"],
 [("map of members", "collections/set.go")],
 "property-based testing (rapid): stateful comparison with a reference model", "sequential by contract: the type has no lock")
prop("C24", "A HashSet keeps the most recent distinct elements up to its maximum",
 "A HashSet contains the elements added and not deleted, cleared or evicted since. With a maximum count it never holds more than that, and adding a new element to a full set evicts the one that was added longest ago. Adding an element that is there changes nothing, HasOrCreate reports whether it was there, and membership, count and key listing agree.",
 ["inputs", "histories", "configurations"], "all operation sequences, maximum counts from none to 8, several element types",
 "no test exists", ["collections/hash_set.go"],
 [("map of members and slice in order of arrival", "collections/hash_set.go Add, HasOrCreate, Delete")],
 "property-based testing (rapid): stateful comparison with a reference model", "every query is made after every operation")
prop("C25", "A HashSet is atomic under concurrent use",
 "Concurrent calls on a HashSet take effect one at a time in some order that respects real time: every result, also of HasOrCreate, Count and Keys, is what that order explains, and the maximum count is never exceeded. No call races with another.",
 ["schedules", "histories"], "all schedules of up to six goroutines over few keys",
 "no test exists", ["collections/hash_set.go"],
 [("one lock, second look before insertion", "collections/hash_set.go HasOrCreate")],
 "property-based testing (rapid): linearizability checking of generated concurrent histories, schedule fuzzing, race detector", LIN)
prop("C26", "A TwoKeyMap finds and removes a value by either key",
 "A TwoKeyMap returns for a first key the value last put with it and not removed, and for a second key the value of the first key it was last put together with. Putting a first key with another second key, or a second key with another first key, dissolves the old pairing: the old second key finds nothing, and the old first key keeps its value. Removing by either key removes value and pairing; removing an absent key changes nothing. Length and key listings agree.",
 ["inputs", "histories"], "all operation sequences over small key sets, zero keys included, several key types",
 "no test exists", ["collections/two_key_map.go"],
 [("data map and two cross maps", "collections/two_key_map.go Put, Remove, RemoveByK2")],
 "property-based testing (rapid): stateful comparison with a reference model", "every query is made after every operation")
prop("C27", "A TwoKeyMap is atomic under concurrent use",
 "Concurrent calls on a TwoKeyMap take effect one at a time in some order that respects real time; nobody sees a value under one key only when it was put under both, or half of a removal.",
 ["schedules", "histories"], "all schedules of up to six goroutines over few keys",
 "no test exists", ["collections/two_key_map.go"],
 [("one lock around both directions", "collections/two_key_map.go")],
 "property-based testing (rapid): linearizability checking of generated concurrent histories, schedule fuzzing, race detector", LIN)
prop("C28", "A MapMutex excludes per key and only per key",
 "Between Lock and Unlock of a key no other goroutine gets past Lock of an equal key; what one holder wrote the next one sees. Holding keys never delays a Lock of another key. When the holder unlocks, a waiter gets in, and no waiter stays behind for ever. Unlocking a key that was never locked does nothing.",
 ["schedules", "histories"], "all schedules of up to eight goroutines with nested sections on few keys, first use of a key by several at once",
 "no test exists", ["collections/lock_map.go"],
 [("lock per key created under double-checked map lock", "collections/lock_map.go MapMutex")],
 "property-based testing (rapid): invariant over concurrent critical sections, schedule fuzzing, race detector",
 "a lost or duplicate lock shows as overlap, lost update, race or deadlock; " + SCHED)
prop("C29", "A MapRWMutex admits many readers or one writer per key",
 "For every key, a writer is alone between Lock and Unlock, readers are together with readers only, what a writer wrote later holders see, and nothing changes under a reader. Holding keys never delays other keys, a second reader gets in while one reads, and when the holders leave a waiter gets in. Unlocking a key that was never locked does nothing.",
 ["schedules", "histories"], "all schedules of up to eight goroutines with nested read and write sections on few keys",
 "no test exists", ["collections/lock_map.go"],
 [("read-write lock per key created under double-checked map lock", "collections/lock_map.go MapRWMutex")],
 "property-based testing (rapid): invariant over concurrent critical sections, schedule fuzzing, race detector", SCHED)
prop("C30", "SimpleMap and ShardMap behave as one atomic map",
 "A SimpleMap, and a ShardMap whatever its shards and shard function, behave as one map: Get, Has, Set, Delete and both conditional sets act on exactly the given key, also under concurrent use, where calls take effect one at a time in an order that respects real time. SimpleMap's Size and, while nothing else runs, ShardMap's Size and Clear cover all keys; a concurrent Clear empties each key at some moment within the call.",
 ["inputs", "schedules", "histories", "configurations"], "all operation sequences and schedules of up to six goroutines, shard counts 1 to 8, fair and unfair shard functions",
 "no test exists", ["collections/map.go", "collections/shard_map.go"],
 [("one lock, or a lock per shard", "collections/map.go, collections/shard_map.go")],
 "property-based testing (rapid): stateful comparison with a reference model and linearizability checking, schedule fuzzing, race detector", "shard functions out of range are outside the statement; " + LIN)
prop("C31", "Create-if-absent runs its function once per absent key",
 "When several goroutines create the same absent key of a SimpleMap or ShardMap through SetIfNotExistsWithFunc, exactly one function runs to its end, its value is stored and returned to every caller, and exactly one caller is told it created it. With a present key the function is not called. A function that panics or ends its goroutine (runtime.Goexit) stores nothing and leaves the map usable.",
 ["schedules", "histories", "fault_sequences"], "all schedules of up to eight goroutines creating, reading, setting and deleting few keys, functions that yield or panic",
 "no test exists", ["collections/map.go", "collections/shard_map.go"],
 [("function called under the lock after a look", "collections/map.go, collections/shard_map.go SetIfNotExistsWithFunc")],
 "property-based testing (rapid): exactly-once oracle over concurrent creations, schedule fuzzing, race detector", SCHED)
prop("C32", "A GuavaMap holds what was set, up to its maximum, oldest out first",
 "A GuavaMap contains the entries put there (by Set, HasOrCreate, LockForUpdate or a load) and not deleted, cleared, evicted or expired since, each with its latest value. With a maximum count it never holds more entries, and inserting a new key into a full map evicts the entry inserted longest ago; writing or reading a present key does not change its age. Get of an absent key without load function is the zero value. Has, Size and the stored listing agree, and a listing does not follow later changes. Deleting an absent key does nothing.",
 ["inputs", "histories", "configurations"], "all operation sequences, maximum counts from none to 6, with and without load and unload functions and timeouts, values that are zero",
 "the tests insert a handful of keys once per feature", ["collections/guava_map.go"],
 [("map of holders and slice in order of insertion", "collections/guava_map.go Set, HasOrCreate, Get, safeDelete")],
 "property-based testing (rapid): stateful comparison with a reference model on a virtual clock", "the whole content is compared after every operation",
 state=[("stored", "the entries", "collections/guava_map.go GuavaMap"), ("storedSlice", "keys in order of insertion", "collections/guava_map.go GuavaMap")])
prop("C33", "A GuavaMap entry lives exactly its timeout, counted from last use",
 "With a write timeout an entry is present until exactly that long after its last write (writing the value already there is one), whatever is read, and gone then; with a read timeout, until that long after its last write, Get, Has or HasOrCreate that found it. Deleting, evicting, clearing or replacing an entry leaves no timer behind that could remove a later entry of the same key. Without timeouts entries never expire. With both timeouts, an entry stays until the earlier of the two moments they allow and is gone after the later. Listing the content or asking the size is no use; a Get that finds, after its load, a value put in meanwhile is one.",
 ["inputs", "histories", "schedules", "configurations"], "all operation sequences in virtual time, timeouts from 1 ms, operations at and around the moment of expiry, re-creation of keys that went",
 "the tests sleep once and look once, in real time", ["collections/guava_map.go"],
 [("timer goroutine per entry, reset on use, cancelled on removal", "collections/guava_map.go createHolder")],
 "property-based testing (rapid): stateful comparison with a reference model on a virtual clock, schedule fuzzing",
 "at the very instant of expiry both orders are accepted, but a write then must survive; with both timeouts anything between the two moments is accepted; " + SCHED)
prop("C34", "Every GuavaMap entry that leaves is unloaded exactly once",
 "When an entry leaves the map, by Delete, Clear, eviction or expiry, the unload function is called for it exactly once, with its key and latest value, and it is called for nothing else. Overwriting a value unloads nothing. Concurrent removal by several ways still unloads once; the unload function delays nothing and may use the map, and no goroutine stays behind when the entries are gone.",
 ["histories", "schedules", "configurations"], "all operation sequences and schedules of up to six goroutines with deletion, clearing, eviction and expiry at once",
 "no test counts unload calls", ["collections/guava_map.go"],
 [("unload started where the entry is removed, under the lock", "collections/guava_map.go safeDelete, Clear")],
 "property-based testing (rapid): exactly-once accounting of entry lives on a virtual clock, schedule fuzzing, race detector", "unload calls are asynchronous and compared when every goroutine rests; " + SCHED)
prop("C35", "A GuavaMap loads absent keys, and once at a time when asked to",
 "Get of an absent key with a load function calls it with that key and stores and returns its value, zero values included; when it fails, its error is returned, nothing is stored and the next Get tries again, as after a panic of the load function or the end of its goroutine. A value put in for the key while its load runs is kept, and what a successful load brought is dropped for it; a failed load's error is returned all the same. Present keys are not loaded. All concurrent Gets of a key agree on one value while nothing replaces it. With load locking, a key is never loaded twice at once nor again while it is stored. A load delays no other key, and the load function may use the map for other keys.",
 ["schedules", "histories", "inputs", "fault_sequences"], "all schedules of up to six goroutines, loads that take time, fail or panic, concurrent Set and Delete",
 "the test of load locking is flaky and counts loads of one key once", ["collections/guava_map.go", "collections/lock_map.go"],
 [("load outside the map lock, per-key lock around it", "collections/guava_map.go Get")],
 "property-based testing (rapid): reference model for sequences, single-load and agreement oracle for schedules, race detector", SCHED)
prop("C36", "GuavaMap.LockForUpdate never loses an update",
 "Update functions of one key run one at a time, each call returns what its function returned, and when it returns the value is stored: of concurrent increments none is lost, whatever else happens to the key meanwhile, also inside the update function (deletion, expiry, eviction, clearing, another write). An update delays no other key, and may use the map for other keys. Afterwards nothing stays locked, also when an update function panicked or ended its goroutine.",
 ["schedules", "histories"], "all schedules of up to six goroutines updating few keys, with deletes, clears, evictions and expiries in between",
 "one test increments a counter", ["collections/guava_map.go"],
 [("per-key update lock", "collections/guava_map.go LockForUpdate")],
 "property-based testing (rapid): mutual exclusion and lost-update oracle, schedule fuzzing, race detector", SCHED)
prop("C37", "A GuavaMap is atomic under concurrent use",
 "Concurrent calls on a GuavaMap take effect one at a time in some order that respects real time, eviction included: results of Get, Has, HasOrCreate, Size and listings fit that order, and the maximum count is never exceeded. No call races with another or with expiring entries.",
 ["schedules", "histories", "configurations"], "all schedules of up to six goroutines, with and without maximum count, timeouts and unload function",
 "the concurrent tests check that nothing crashes", ["collections/guava_map.go"],
 [("one lock", "collections/guava_map.go")],
 "property-based testing (rapid): linearizability checking of generated concurrent histories, schedule fuzzing, race detector", LIN)
prop("C53", "The end of its context costs a GuavaMap nothing but its timers",
 "When the context given to a GuavaMap ends, the goroutines and timers it keeps for its entries end at once, and none starts later. The entries stay: no entry is removed or unloaded because the context ended, and at least until their timeout the map answers, stores, loads, evicts, deletes and unloads exactly as before.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all operation sequences with the end of the context at any point, maximum counts, both kinds of timeout, load and unload functions",
 "no test gives a GuavaMap a context", ["collections/guava_map.go"],
 [("context of the entry's timer goroutine derived from the map's", "collections/guava_map.go createHolder")],
 "property-based testing (rapid): stateful comparison with a reference model on a virtual clock, goroutine-leak oracle, schedule fuzzing, race detector",
 "what happens to timeouts that pass after the context ended is not part of the statement; " + SCHED)
prop("C38", "A RequestMap runs one request per key for all concurrent callers",
 "Concurrent requests for a key that is neither stored nor under way start the request function exactly once, with that key, and every caller, also one that joins while it runs, gets its result, as soon as it is there. Requests for different keys do not wait for each other.",
 ["schedules", "histories", "inputs"], "all arrival patterns in virtual time and all schedules of up to eight goroutines, functions of any duration",
 "the tests count calls for one pattern in real time", ["collections/request_map.go"],
 [("waiter list per key, first waiter starts the function", "collections/request_map.go GetOrCreate, GetOrCreateWithErr")],
 "property-based testing (rapid): single-flight oracle on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C39", "A RequestMap result lives its lifetime, then is requested anew",
 "A result, fetched or given at creation, answers every request for its key until its lifetime since the moment it came is over, without a call of the request function; shortly after that (within a fifth of a second plus the time of results that came before it) it is gone and the next request fetches anew. Expiry of an old result never removes a newer one, and works however long the map rested. Count is the number of keys stored or under way and returns to zero.",
 ["histories", "inputs", "configurations"], "all request patterns in virtual time, lifetimes from milliseconds to minutes, preloaded results, keys that come back many times",
 "one test waits once for one expiry", ["collections/request_map.go"],
 [("time-ordered result list swept every 100 ms", "collections/request_map.go rmWorker")],
 "property-based testing (rapid): flight history against lifetimes on a virtual clock, schedule fuzzing", CLOCK)
prop("C40", "RequestMap delivers errors and timeouts to every caller alike",
 "When a request function returns an error, all callers of that flight get that value and error, and so do later callers while it is stored; preloaded errors are returned too. A function wrapped with a timeout returns the inner result when it comes in time and otherwise, exactly at the timeout, the zero value with ErrTimeout, and leaves no goroutine behind once the inner function ends. One wrapped function may serve any number of calls, at once or long after it was made, and each of them has the whole timeout and its own result.",
 ["histories", "inputs", "schedules"], "all mixes of results, errors, timeouts and durations in virtual time",
 "one test of the timeout with one duration", ["collections/request_map.go"],
 [("error stored with the result", "collections/request_map.go GetOrCreateWithErr"), ("buffered channel and timer", "collections/request_map.go Timeout")],
 "property-based testing (rapid): flight history oracle on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C41", "A ResponseMap delivers the first value set to every waiter",
 "While an entry of a ResponseMap lives, every Wait for its key, before or after the Set and from however many goroutines, returns the first value set for it, the waiting ones at the moment of the Set and later ones at once; later Sets change nothing. Set never blocks. Keys do not influence each other.",
 ["schedules", "histories", "inputs"], "all interleavings of waits and sets over few keys in virtual time",
 "the tests set each key once, from one goroutine", ["collections/response_map.go"],
 [("holder per key with value and listeners", "collections/response_map.go chansHolder")],
 "property-based testing (rapid): exact delivery oracle on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C42", "No ResponseMap Wait outlasts its timeout, and entries are cleared",
 "A Wait returns a value set while it waits, or the zero value by the response timeout: waiters that are there together time out together, when the first of them reaches it and not before, unless their entry is cleared. An entry lives at least the clear timeout from the first use of its key and is gone after twice that, when the key starts afresh; clearing releases waiters. This holds for the second and every later group of waiters and after any rest, and no goroutine outlives the map's context by more than the response timeout.",
 ["histories", "schedules", "configurations"], "all patterns of waits and sets in virtual time over several lives of a key, response timeouts shorter and longer than clear timeouts, cancellation",
 "the tests time out one group of waiters once", ["collections/response_map.go"],
 [("timer per group of waiters", "collections/response_map.go wait"), ("clearing loop", "collections/response_map.go clear")],
 "property-based testing (rapid): exact time oracle on a virtual clock, goroutine-leak oracle, schedule fuzzing", CLOCK)
prop("C43", "A ResponseMap is atomic under concurrent use",
 "However Set and Wait of many goroutines, timeouts and clearing meet, nothing races, panics or hangs: all concurrent waits of one life of a key return the same value, the first one set, no Wait returns a value that was not set or one older than the clearing allows, and none misses a value whose Set came before it.",
 ["schedules", "histories"], "all schedules of up to seven goroutines, and sets, waits, timeouts and clearing at the same instants",
 "the tests let many goroutines wait for one Set", ["collections/response_map.go"],
 [("lock per holder", "collections/response_map.go chansHolder")],
 "property-based testing (rapid): linearizability checking, schedule fuzzing, race detector", LIN)
prop("C44", "A WaitMap delivers the first value set to every waiter",
 "Every Wait on a WaitMap key, begun before or after the Set and from however many goroutines, returns the first value set, the waiting ones at the moment of the Set and later ones at once while the value lives; Sets while a value is stored change nothing. Count is the number of keys stored or waited for. Keys do not influence each other.",
 ["schedules", "histories", "inputs"], "all interleavings of waits and sets over few keys in virtual time",
 "one test sets twice and waits twice", ["collections/wait_map.go"],
 [("waiter channels and data per key", "collections/wait_map.go Set, Wait")],
 "property-based testing (rapid): exact reference model on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C45", "WaitMap requests time out, answers expire, cancellation releases all",
 "A group of waiters is answered by the zero value exactly one request timeout after the first of them came, if nothing was set; a timeout of an answered group affects no later one. An answer, set or timed out, is stored for exactly the response TTL and then the key starts afresh, so Count returns to zero. When the context ends, every waiter returns at once with the zero value, everything stored goes, and later waits return at once. No goroutine stays.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all patterns of waits and sets in virtual time, timeouts shorter and longer than TTLs, every moment of cancellation",
 "the test of timeouts is flaky and follows two keys once", ["collections/wait_map.go"],
 [("timeout goroutine per group, expiry goroutine per answer", "collections/wait_map.go")],
 "property-based testing (rapid): exact reference model on a virtual clock, goroutine-leak oracle, schedule fuzzing", CLOCK)
prop("C46", "A WaitMap is atomic under concurrent use",
 "However Set, Wait and Count of many goroutines, timeouts, expiries and cancellation meet, nothing races, panics or hangs: each key has one answer at a time, the first one set, no Wait misses an answer set before it and still stored, or returns one that was not set or has expired, or the zero value when nobody's time was over.",
 ["schedules", "histories"], "all schedules of up to seven goroutines, and sets, waits, timeouts and expiries at the same instants",
 "one stress test counts goroutines", ["collections/wait_map.go"],
 [("one lock", "collections/wait_map.go")],
 "property-based testing (rapid): linearizability checking, schedule fuzzing, race detector", LIN)
prop("C47", "A HolderMap key has one outcome, which every waiter gets",
 "The first Wait for a key of a HolderMap stores its object; every Wait for the key, begun before or after the release, returns the outcome given first: nil by Release, the very error given by Error. Further releases change nothing and never block. Get returns the object, as last updated, and the outcome so far; Get, Update, Release and Error of an absent key are errors. Count is the number of keys present.",
 ["histories", "schedules", "inputs"], "all interleavings of all calls over few keys in virtual time",
 "one flaky test releases one key once", ["collections/holder_map.go"],
 [("holder with release channel and waiter list", "collections/holder_map.go Wait, Release, Error")],
 "property-based testing (rapid): exact reference model on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C48", "HolderMap waits time out, entries go after their TTL or the context",
 "A key of a HolderMap that is not released within the timeout from its first Wait gets a non-nil error as outcome at exactly that moment, for every waiter. The entry goes exactly one TTL after its outcome, whereupon the key is absent and can be used afresh. When the context ends every waiter without an outcome returns at once with a non-nil error, later waits return at once, all entries go and no goroutine stays.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all patterns of calls in virtual time, timeouts shorter and longer than TTLs, every moment of cancellation",
 "one flaky test times out one key once", ["collections/holder_map.go"],
 [("goroutine per key: timer, context, release, then TTL", "collections/holder_map.go Wait")],
 "property-based testing (rapid): exact reference model on a virtual clock, goroutine-leak oracle, schedule fuzzing", CLOCK)
prop("C49", "A HolderMap is safe under concurrent use",
 "However the calls of many goroutines, timeouts, expiries and cancellation meet, nothing races, panics or hangs: all waiters of one life of a key get the same outcome, one that a Release or Error gave or the timeout at its moment, no release that succeeded before is overruled, no waiter is forgotten, and the object is one that somebody stored.",
 ["schedules", "histories"], "all schedules of up to six goroutines, and releases, waits, timeouts and expiries at the same instants",
 "no test uses a holder map from more than two goroutines", ["collections/holder_map.go"],
 [("lock per holder and map lock", "collections/holder_map.go")],
 "property-based testing (rapid): outcome oracle over concurrent histories, schedule fuzzing, race detector", SCHED)
prop("C50", "A StructUniqSet tells equal values from different ones by content",
 "With the default identity, two values are the same element exactly when their exported content is equal, through pointers, slices, nested structures and maps, wherever they are stored. Add reports whether the element was new, Remove whether it was there, and membership and count agree. Values that cannot be encoded are errors that change nothing.",
 ["inputs", "histories"], "generated values of several types with near misses (moved characters, swapped fields, nil against zero), all operation sequences",
 "no test exists", ["collections/struct_uniq_set.go"],
 [("gob encoding hashed with MD5", "collections/struct_uniq_set.go getHashCode")],
 "property-based testing (rapid): stateful comparison with a reference model over canonical value descriptions",
 "values that contain maps of several entries are a known finding; nil and empty slices, and nil and zero pointers gob does not tell apart, are not compared")
prop("C51", "StructUniqSet elements live their TTL and go soon after",
 "An element is present from its Add for at least its TTL, unless removed, and gone one check interval after that; an element removed or expired and added again lives a full TTL from then. Adding a present element neither prolongs its life nor counts as new. Expiry works through any number of removals, also while the set is empty, however long, and ends with the context.",
 ["histories", "configurations", "schedules"], "all operation sequences in virtual time, TTLs shorter and longer than the check interval, re-added elements",
 "no test exists", ["collections/struct_uniq_set.go"],
 [("sweep of a list in order of creation", "collections/struct_uniq_set.go Build")],
 "property-based testing (rapid): reference model with deadlines on a virtual clock, schedule fuzzing, race detector", CLOCK)
prop("C52", "A StructUniqSet follows its identity function and is atomic",
 "With a custom identity function, elements are the same exactly when the function gives the same hash, and its error is returned by every call and changes nothing. Concurrent calls take effect one at a time in some order that respects real time: of concurrent Adds of one element exactly one reports it as new, and of concurrent Removes exactly one as there.",
 ["schedules", "histories", "inputs"], "identity functions that merge values or fail, all schedules of up to six goroutines over few values",
 "no test exists", ["collections/struct_uniq_set.go"],
 [("build function, lock with second look", "collections/struct_uniq_set.go Add")],
 "property-based testing (rapid): linearizability checking of generated concurrent histories, schedule fuzzing, race detector", LIN)
prop("C54", "What has left a collection, channel or pool is not kept alive by it",
 "A map, set, channel helper or worker pool that stays in use keeps nothing alive that has left it: whatever the number of keys, values, items and functions that came and went, by deletion, clearing, eviction, expiry, delivery or execution, its memory use is bounded by what it held at a time.",
 ["histories", "inputs", "configurations"], "all collections, channel helpers and the pool, every way to leave them, mixed or alone, peaks of 1 to 16 objects and turnovers of 40 to 100 times that",
 "no test looks at memory; a leak shows after days in production",
 ["collections/", "chans/", "workers/runner.go"],
 [("removal deletes from every index kept", "collections/*.go"), ("fresh slices, timers and goroutines that end", "chans/*.go, collections/*.go")],
 "property-based testing (rapid): generated histories with weak pointers to every object that passed through, garbage-collection oracle",
 "MapMutex and MapRWMutex keep the lock of every key on purpose and are left out; StructUniqSet, which stores hashes, is judged by the growth of the heap")
prop("C55", "Channel helpers buffer what they were told to, then hold producers back",
 "As long as nobody receives, a channel helper takes in at least what its buffers hold (incoming items, outgoing items or full chunks) and then makes producers wait, holding never more than its buffers and what each stage has in hand. Every delivery received lets producers get on, and in the end everything arrives. At rest, Sizes tells how many items and chunks wait in the queues: per shard the items of that shard not yet received, and zeros when all is delivered.",
 ["inputs", "schedules", "configurations"], "all buffer and chunk sizes, defaults included, shard counts, numbers of items and patterns of receiving and waiting",
 "no test fills a buffer or looks at the sizes",
 ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"],
 [("buffered channels of configured size", "chans/*.go Build"), ("blocking sends between the stages", "chans/*.go")],
 "property-based testing (rapid): occupancy bounds and queue-size oracle at rest on a virtual clock, schedule fuzzing",
 "bounds allow each stage one more item or chunk in hand than it has now; the internal buffers of a sharded chunker are bounded by its defaults")
prop("C56", "What a builder has built depends neither on it nor on its other products",
 "Build gives an object of its own, configured as the builder was at that moment: configuring the builder anew afterwards, building once more with or without that, ending the context of another product, or using the other product changes nothing about an object already built. Channels given by the caller are the only thing two products share.",
 ["histories", "configurations", "schedules"], "all builders (channel helpers, GuavaMap, HashSet, ShardMap, ResponseMap, WaitMap, HolderMap, StructUniqSet, runners, processors, archives), pairs of configurations, moments of the second Build and operation sequences on both objects",
 "every test builds one object from one builder",
 ["chans/", "collections/", "workers/runner.go", "flow/processor.go", "crypto_fs/crypto_fs.go"],
 [("Build copies the settings into the product", "*/ Build")],
 "property-based testing (rapid): differential runs of generated histories on a virtual clock (one builder against two, together against alone), race detector",
 "builders are used by one goroutine; routes added to a processor builder stay for its next product")

prop("C57", "The end of a map's context stops its expiry and nothing else",
 "When the context given to a RequestMap, ResponseMap or StructUniqSet ends, the goroutine that clears it ends at once, and nothing else changes: nothing is removed because of it, what is stored answers on for at least its lifetime, requests and waits under way end as they would have, and later requests, sets, waits, additions and removals work, share, deliver and time out as before. No goroutine is left when the calls and the functions they started are over.",
 ["histories", "schedules", "fault_sequences"], "all histories in virtual time with the end of the context at any point, before the map is made included",
 "no test ends a context of these maps", ["collections/request_map.go", "collections/response_map.go", "collections/struct_uniq_set.go"],
 [("select on the context in the clearing goroutine", "collections/request_map.go rmWorker, collections/response_map.go clear, collections/struct_uniq_set.go Build")],
 "property-based testing (rapid): the models of C39, C42 and C51 with the end of the context in the history, on a virtual clock", "what stays after its lifetime when nothing is cleared any more is left open; " + SCHED)
prop("C58", "A function given to an object may use that very object",
 "The functions users hand over may call the object that calls them. A chunk or worker function may add items, a task may submit tasks, a request or load function may ask for other keys, an update function may update other keys, an unload function may put in keys, and a step of a processor may process other events: as long as buffers have room and keys do not wait for each other in a circle, nothing blocks, and all that is handed in this way is done exactly once, with the right results.",
 ["histories", "schedules", "configurations"], "all trees of items handed in by the functions called for others, to 80 items and that deep, in all forms of call, with one to five workers, shards and places",
 "no test's function uses the object it is given to", ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "collections/request_map.go", "collections/guava_map.go", "flow/processor.go"],
 [("functions are called without a lock that other calls need", "chans/*.go Build, workers/runner.go Build, collections/request_map.go GetOrCreate, collections/guava_map.go Get, LockForUpdate, safeDelete, flow/processor.go Build")],
 "property-based testing (rapid): generated call trees, exactly-once and result oracle, deadlock detection on a virtual clock, schedule fuzzing", "circular requests and adding to full buffers from the only consumer block by construction and are outside the statement; " + SCHED)
prop("C59", "What a call returns, and what it is given, belongs to the caller",
 "Slices and maps that a call returns or a channel delivers are the caller's: they do not change afterwards, and overwriting them, up to their capacity, or appending to them changes nothing in the object, in what later calls return or in what others got. A call does not write to the slices it is given, nor behind them, and what the caller does with them afterwards changes nothing. This holds for listings, snapshots, sizes, chunks, encoded, encrypted and packed data, and for initial elements and preloaded results; only the pieces net.Chunk returns are views of its argument, and keys given to ciphers stay in use.",
 ["inputs", "histories"], "all operation sequences on every type that lists its contents, delivers chunks or converts data, with a caller that overwrites and one that keeps everything",
 "no test changes or keeps what it got", ["chans/", "collections/", "comparer/", "crypto/", "crypto_fs/", "flow/processor.go", "net/to_bytes.go", "zip/gzip.go"],
 [("a new slice or map for every result", "collections/*.go Keys, Values, GetStored, chans/*.go Sizes, run, net/to_bytes.go, crypto/, zip/, comparer/comparer.go"), ("arguments are copied", "net/to_bytes.go AddSize32, CopyBytes, collections/set.go NewSet, collections/request_map.go NewRequestMap")],
 "property-based testing (rapid): differential runs of generated histories (a caller that overwrites, one that keeps, one that leaves alone), race detector", "values of element types that hold pointers are the users' own affair; one caller at a time, the object's own goroutines apart")

prop("C60", "Options mean the same in any order, and what is left out has its default",
 "An object behaves as the values last given for each option say: the order of the options and values given before do not matter, a context or function replaced before Build is never used, and an option left out is as one given with its default: chunks of 100 (500 with shards) and 50 ms, buffers of 1000 and 100, 4 shards (ShardMap: 6), 5 workers, no maximum and no timeout in GuavaMap and HashSet, 10 s for requests and 5 min for answers (WaitMap, HolderMap), 100 s (ResponseMap), 30 min checked every second (StructUniqSet), no callback and a context that does not end.",
 ["configurations", "histories"], "all orders, repetitions and omissions of the options of 11 builders, and operation sequences in virtual time on the product",
 "tests give a few options, each once, in the order of the source", ["chans/", "collections/", "workers/runner.go"],
 [("With methods and the values of the New functions", "*/ builders")],
 "property-based testing (rapid): metamorphic, differential runs of generated histories on a virtual clock (options shuffled, repeated and omitted against each given once)",
 "the context is always given, as the case must end")

prop("C61", "What a key or a value is does not matter",
 "Maps, sets, caches, request, response and wait collections tell keys apart exactly as == does and hand back values unchanged, whatever their type: integers, floats, strings, structs, arrays, pointers, channels, errors, times or interfaces of mixed types, also keys printed alike, of great length, sharing a prefix, equal in their low bits, or the zero value of the type. A history with such keys and values gives the same results, at the same times, as one with small integers.",
 ["inputs", "histories"], "11 kinds of collection, 18 types of key and value, sets of easily confused keys and values, operation sequences in virtual time",
 "tests use a few short strings or small integers as keys", ["collections/"],
 [("All type parameters K and V", "collections/*.go")],
 "property-based testing (rapid): metamorphic, one generated history played with the keys and values renamed",
 "float NaN, which is not equal to itself, is left to C23–C25; StructUniqSet, which compares contents, to C50")
