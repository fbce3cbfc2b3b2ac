#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))

VC = "the virtual clock of testing/synctest"
SCHED = "schedules are sampled (seeded yields between statements, several GOMAXPROCS, race detector), not enumerated"

# ------------------------------------------------------------------ chans
prop("C01", "Chunked channels lose, duplicate, reorder and invent nothing",
 "While its context lives, a chunked channel delivers every item handed to it exactly once, in the order its producer handed it in, in chunks that hold between one item and the configured chunk size. A delivered chunk is never changed afterwards. Closing a user-supplied incoming channel delivers the items still pending and nothing else.",
 ["inputs", "schedules", "configurations"],
 "all chunk sizes, timeouts, buffer sizes, producer counts and paces, consumer paces, delivery through the channel or a callback, built-in or user-supplied incoming channel, closed or not",
 "the tests send 100 items once and log the chunks; order, sizes, loss under a slow consumer and a closed channel are not looked at",
 ["chans/chunk_chan.go"],
 [("collector goroutine: append, flush when full or on tick, fresh slice after each flush", "chans/chunk_chan.go run"), ("chunk callback consumer", "chans/chunk_chan.go Build")],
 "property-based testing (rapid): generated producers/consumers on a virtual clock, conservation oracle, schedule fuzzing and race detector",
 "every generated pipeline history is checked item by item; " + SCHED,
 observe=["ChunkChan.C()", "chunk callback"])
prop("C02", "A chunk leaves when it is full, and at the latest after the timeout",
 "With a consumer waiting, no item rests in a chunked channel longer than the configured chunk timeout, and a chunk that reaches the chunk size is delivered at once. What fell due while nobody received leaves as soon as somebody does. Two chunks that are not full are at least one timeout apart.",
 ["inputs", "schedules", "configurations"],
 "all chunk sizes and timeouts and all arrival patterns, in virtual time",
 "the only test of the timeout logs the chunk and asserts nothing about time; real-time tests cannot tell a late tick from a busy machine",
 ["chans/chunk_chan.go"],
 [("ticker and size check in one select", "chans/chunk_chan.go run")],
 "property-based testing (rapid) on a virtual clock: exact latency oracle",
 "latency is exact because the clock is virtual; " + SCHED)
prop("C03", "Sharded channels route every item to the shard of its key, in order",
 "Every item handed to a sharded channel arrives exactly once on one shard in range; for a non-negative key that is the key modulo the number of shards, and equal keys always share a shard, whatever the integer. Items of one producer for one shard arrive in the order they were sent. A channel asked for a shard out of range does not exist, and building without a shard function is an error.",
 ["inputs", "schedules", "configurations"],
 "all integer keys (negative and extreme ones included), shard counts, buffers, producers, consumer paces",
 "the shard tests do not compile at this commit, and the one that did only logs two shards with small positive keys",
 ["chans/shard_chan.go"],
 [("dispatcher: key modulo shard count", "chans/shard_chan.go Build"), ("bounds check", "chans/shard_chan.go C")],
 "property-based testing (rapid): routing and conservation oracle on a virtual clock, schedule fuzzing and race detector",
 SCHED)
prop("C04", "Sharded chunking keeps routing, order, chunk sizes and latency",
 "Items sent to a sharded chunker arrive exactly once, on the shard of their key, in sending order per shard, in chunks of one to the chunk size, and with a consumer waiting no later than the chunk timeout. Closing the incoming channel delivers what is pending and nothing else.",
 ["inputs", "schedules", "configurations"],
 "all keys, shard counts, chunk sizes, timeouts, buffers, consumer kinds and paces",
 "the only test sends 103 small keys to a logging worker and asserts only that the builder succeeds",
 ["chans/shard_chunk_chan.go", "chans/shard_chan.go", "chans/chunk_chan.go"],
 [("forwarders from each shard to its chunker", "chans/shard_chunk_chan.go Build")],
 "property-based testing (rapid): conservation, routing and latency oracle on a virtual clock, schedule fuzzing and race detector",
 SCHED)
prop("C05", "Cancelling the context ends the channel helpers completely",
 "After the context of a chunked, sharded or sharded-chunk channel is cancelled, every background goroutine it started ends and every blocked or later call to add an item returns, at once, waiting for no timeout, even when the buffers are full and nobody receives. What was delivered until then is a correct part of what was sent.",
 ["schedules", "fault_sequences", "configurations"],
 "every point of cancellation, buffer size, fill state, missing or stopped consumer",
 "tests cancel at the end at most and never look for goroutines that stay",
 ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"],
 [("select on the context in every goroutine and send", "chans/*.go")],
 "property-based testing (rapid): generated cancellation points on a virtual clock, goroutine-leak oracle",
 "a goroutine that outlives the case is found by the bubble of testing/synctest; " + SCHED)

# ------------------------------------------------------------------ workers, flow
prop("C06", "The runner executes each task once with exactly its parallelism",
 "Every function given to a worker pool runs exactly once while the context lives, whichever goroutine submits it and in whichever form. At most the configured number of functions run at the same time, and whenever functions wait, exactly that many run, however long the pool rested before. A function submitted with a context receives the pool's context.",
 ["schedules", "inputs", "configurations"],
 "worker counts 1 to 16, bursts beyond the queue capacity, several submitters, all task durations",
 "one test runs ten equal tasks on three workers and counts them",
 ["workers/runner.go"],
 [("N worker goroutines select over two buffered queues", "workers/runner.go Build")],
 "property-based testing (rapid): task histories on a virtual clock, exactly-once and work-conservation oracle, schedule fuzzing, race detector",
 "parallelism is measured at instants when every goroutine rests; " + SCHED)
prop("C07", "Cancelling the runner stops it without stranding anyone",
 "Once the pool's context is cancelled, no queued or later submitted function starts, the workers end after the function they are in, and no submitter stays blocked.",
 ["schedules", "fault_sequences"],
 "every cancellation point, queue fill, worker count and number of late submissions",
 "no test cancels a runner",
 ["workers/runner.go"],
 [("select on the context in workers and in Run", "workers/runner.go")],
 "property-based testing (rapid): generated cancellation points on a virtual clock, goroutine-leak oracle",
 "cancellation happens at instants when every goroutine rests, so 'after' is unambiguous; " + SCHED)
prop("C08", "Event processors run their chains in order and stop at the first refusal",
 "A built processor runs its routes and the steps of each route in the order they were declared. It stops at the first condition that refuses (returning an error) or step that fails (returning that step's error), and runs nothing after it. Calls do not influence each other, from one goroutine or several.",
 ["programs", "inputs", "histories"],
 "all generated processors up to six routes of six steps, all events and state-dependent conditions",
 "two tests with one or two steps each",
 ["flow/processor.go"],
 [("nested loop over routes and chains", "flow/processor.go Build")],
 "property-based testing (rapid): generated programs against a reference interpreter",
 "the reference interpreter is an independent loop over the generated program",)

# ------------------------------------------------------------------ net, math, comparer
prop("C09", "Integer codecs are exact and inverse to each other",
 "Packing an unsigned integer of 8 to 64 bits in a byte order and unpacking it again gives the same value and the standard byte layout; the little-endian helpers agree with it. Converting an int to N little-endian bytes keeps its low N bytes and converting back gives exactly them. Unpacking into an unsupported type is an error that changes nothing, and packing a value of one panics.",
 ["inputs"], "all 64-bit values, widths, byte orders, byte counts 0 to 12, trailing bytes",
 "no test exists for the codecs", ["net/to_bytes.go"],
 [("shift loops and encoding/binary", "net/to_bytes.go")],
 "property-based testing (rapid): round trip and byte-layout oracle", "oracle computes each byte by shifting")
prop("C10", "Framing, chunking and copying keep the bytes and share no memory",
 "A framed message is its length as a little-endian prefix followed by the unchanged data. Splitting data into chunks gives chunks of the asked size, only the last one shorter, that join to the data. A copy equals the asked prefix, and neither frames nor copies share memory with the input or change it.",
 ["inputs"], "data of 0 bytes to 1.5 MB with and without spare capacity, all chunk sizes from 1, all prefix lengths",
 "no test exists", ["net/to_bytes.go"],
 [("AddSize16/32, Chunk, CopyBytes", "net/to_bytes.go")],
 "property-based testing (rapid): structural oracle with aliasing probes", "16-bit frames are checked up to 65535 bytes, what the prefix can express")
prop("C11", "Bit packing is a lossless, position-exact encoding",
 "Packing booleans into bytes puts boolean i into bit i mod 8 of byte i div 8 and zero elsewhere, and unpacking the same count gives the same booleans; unpacking bytes and packing them again gives the same bytes.",
 ["inputs"], "all lengths to 70000 bits, all bytes, all counts",
 "no test exists", ["net/to_bytes.go"],
 [("BoolArrayToByte, ByteToBoolArray", "net/to_bytes.go")],
 "property-based testing (rapid): round trip and per-bit oracle", "per-bit check of every position")
prop("C12", "Exact reads return exactly the next N bytes or an error, in time",
 "Reading N bytes from a connection returns exactly the next N bytes of the stream however it is segmented and consumes no more, returning as soon as they are there; if the stream ends early, or the connection fails or takes no deadline, it is an error. With a timeout it returns by the timeout, with an error when the bytes are not there by then, and the next read has its own timeout.",
 ["inputs", "schedules", "fault_sequences"], "all segmentations, delays, early closes, read sizes and timeouts, also a final segment that arrives together with end-of-stream",
 "no test exists", ["net/read.go"],
 [("io.ReadFull and read deadline", "net/read.go")],
 "property-based testing (rapid): scripted connections and net.Pipe on a virtual clock, exact byte and time oracle",
 "times are exact in virtual time; a deadline left on the connection by a timed read is outside the statement")
prop("C13", "Minimum, maximum and decimal shift are exact for every value",
 "Minimum and maximum return the smaller and larger argument for every pair of values of every supported numeric type. Moving the decimal point of an integer multiplies or divides (towards zero) by the exact power of ten whenever the result fits.",
 ["inputs"], "all integer widths including extremes and neighbours, finite and infinite floats, shifts -25 to 18",
 "one example of the shift is tested, no minimum or maximum", ["math/minmax.go", "math/decimal_int.go"],
 [("comparison functions", "math/minmax.go"), ("IntPointMove", "math/decimal_int.go")],
 "property-based testing (rapid): differential against native comparison and math/big", "NaN and results that overflow are outside the statement")
prop("C14", "The slice comparison classifies every element exactly once",
 "Comparing a current and a target list by id returns the current elements missing from the target, the target elements missing from the current list, and the current elements present in both, each in input order with duplicates kept, and leaves the inputs unchanged.",
 ["inputs"], "all id lists with duplicates and extreme ids, up to 5000 elements",
 "one example of five and four elements checks only the counts", ["comparer/comparer.go"],
 [("two id sets and three scans", "comparer/comparer.go CompareSlice")],
 "property-based testing (rapid): reference model by sorted search", "elements are compared by identity")

# ------------------------------------------------------------------ crypto, zip, crypto_fs
prop("C15", "AES encryption round-trips, interoperates and never repeats a nonce",
 "For every AES key and message, decrypting an encrypted message gives it back, also with another instance and in standard AES-GCM with the 12-byte nonce in front and the 16-byte tag at the end. No two encryptions share a nonce, and all nonce bytes vary. Keys of other lengths are errors, inputs are not changed, and earlier results are not touched by later calls.",
 ["inputs", "histories", "schedules"], "key sizes, messages of 0 bytes to 1 MB, sequences of calls, several instances and goroutines",
 "no test exists", ["crypto/aes.go"],
 [("random nonce prepended to the GCM output", "crypto/aes.go Encrypt")],
 "property-based testing (rapid): round trip and differential against crypto/cipher, history-wide nonce oracle under a frozen clock, race detector",
 "nonce randomness is judged by uniqueness and per-byte variation, not statistically")
prop("C16", "AES decryption rejects everything that was not encrypted with its key",
 "Decrypting a changed, cut, extended, spliced or arbitrary byte string, however short, or with another key, is an error that returns no data; it never panics and does not disturb later calls.",
 ["inputs", "fault_sequences"], "all bit flips, truncations, extensions, splices, foreign keys, arbitrary inputs from 0 bytes",
 "no test exists", ["crypto/aes.go"],
 [("GCM authentication, length check", "crypto/aes.go Decrypt")],
 "property-based testing (rapid): mutation fuzzing with an error oracle", "mutations are sampled")
prop("C17", "MD5 helpers return the MD5 digest of the exact bytes",
 "The hash helpers return the MD5 digest of the text's bytes, as 32 lowercase hexadecimal digits or 16 raw bytes, for every text including invalid UTF-8 and long ones; digests returned earlier stay unchanged.",
 ["inputs", "histories"], "texts of 0 bytes to 1 MB of any bytes", "no test exists", ["crypto/hash.go"],
 [("GetMD5Hash, GetMD5HashBytes", "crypto/hash.go")],
 "property-based testing (rapid): differential against crypto/md5", "crypto/md5 is trusted")
prop("C18", "Gzip helpers are lossless and speak standard gzip",
 "Unpacking what was packed gives the same bytes, the packed form is exactly one complete standard gzip member, and everything a standard gzip writer produces (any level, header fields, several members in a row) unpacks to its content. Results returned earlier are not touched by later calls, from one goroutine or several.",
 ["inputs", "histories", "schedules"], "data of 0 bytes to 1 MB, all levels and header fields, multi-member streams",
 "one test packs one string and asserts nothing about unpacking", ["zip/gzip.go"],
 [("compress/gzip writer and reader", "zip/gzip.go")],
 "property-based testing (rapid): round trip and differential against compress/gzip, race detector", "compress/gzip is trusted")
prop("C19", "Unpacking damaged gzip data never returns wrong data",
 "Unpacking a damaged or arbitrary byte string never panics: it is an error, or the data is exactly the original (damage in a header field that does not matter). A stream cut anywhere, or with a changed checksum or length, is always an error.",
 ["inputs", "fault_sequences"], "all bit flips, truncations, trailer changes, appended bytes, arbitrary streams",
 "no test unpacks damaged data", ["zip/gzip.go"],
 [("error returned by the reader", "zip/gzip.go GUnzipData")],
 "property-based testing (rapid): mutation fuzzing with an error-or-equal oracle", "mutations are sampled; a CRC-32 collision would be judged wrong data")
prop("C20", "An archived tree reads back exactly, through the standard fs interface",
 "After saving folders and files and opening the archive with the same key (or none), every path that was added opens with its content, name, size and kind, folders list exactly their entries, a walk visits exactly the tree, and missing paths are reported as not existing. A handle reads to the end in pieces of any size and independently of other handles. A tree added again after changes is archived as it is then. A save replaces a previous archive completely, and the archive does not depend on the original files. No file stays open behind a call.",
 ["inputs", "configurations", "histories"], "generated trees with empty files and folders, unusual names, contents to 300 KB, absolute, relative and root-relative adding, all key sizes and none, all read sizes",
 "the tests use folders of a developer's machine and pass on empty results; reads past the first call are never made", ["crypto_fs/crypto_fs.go"],
 [("tree walk into a path map", "crypto_fs/crypto_fs.go AddFolder"), ("gob encoding, optional AES", "crypto_fs/crypto_fs.go Save"), ("Open, ReadDir over the map", "crypto_fs/crypto_fs.go")],
 "property-based testing (rapid): generated trees on disk against the reopened archive", "symbolic links and unreadable files are outside the statement")
prop("C21", "An encrypted archive leaks nothing and accepts no change",
 "An archive saved with a key contains neither the names nor any stretch of the contents it holds, and differs on every save. Opening it changed in any way, with another key or without key, or opening a plain archive with a key, is an error and never panics.",
 ["inputs", "fault_sequences"], "generated trees, all bit flips, truncations, extensions, wrong keys",
 "one test opens with the right key only", ["crypto_fs/crypto_fs.go", "crypto/aes.go"],
 [("AES around the whole archive", "crypto_fs/crypto_fs.go Save, CryptoFSFromFile")],
 "property-based testing (rapid): substring search and mutation fuzzing", "leaks are searched as plain substrings of 12 bytes or names of 8")
prop("C22", "Archive failures are reported and destroy nothing",
 "A save that fails (unusable key, missing folder, target that is a folder, full device) returns an error; with an unusable key the archive that was there stays intact. Adding a missing path, a link to nowhere, or a folder as a file, neither panics nor affects the rest, and what cannot be read does not appear as a file. Opening arbitrary, cut or missing files is an error and opening damaged ones never panics. No file stays open behind a call that failed.",
 ["fault_sequences", "inputs"], "generated trees with one injected fault of eleven kinds each",
 "no test injects a fault", ["crypto_fs/crypto_fs.go"],
 [("encode and encrypt before the target is created", "crypto_fs/crypto_fs.go Save"), ("error returns", "crypto_fs/crypto_fs.go")],
 "property-based testing (rapid): fault injection into save, add and open", "faults that need another user or a real device are not injected")

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_collections.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_collections.py")) else None

# what the parts on large and odd things add to the domains above
MORE = {
 "C01": "tens of thousands of items, chunks to thousands, items of any type, consumers that append to what they got",
 "C02": "chunk sizes to thousands", "C03": "over a hundred shards, items of any type",
 "C04": "over a hundred shards, long streams, items of any type",
 "C06": "to 300 workers", "C08": "hundreds of routes and steps", "C09": "byte orders of the user's own",
 "C12": "timeouts of zero and below", "C18": "data to tens of megabytes",
 "C23": "histories of thousands of elements", "C24": "histories of thousands of elements, maximum counts to thousands",
 "C26": "histories of thousands of entries, nil and unusual keys", "C28": "hundreds of goroutines", "C29": "hundreds of goroutines",
 "C30": "histories of thousands of entries, nil and unusual values", "C31": "hundreds of goroutines",
 "C32": "maximum counts to thousands, values of any type", "C33": "thousands of entries", "C34": "thousands of entries",
 "C35": "hundreds of goroutines, values of any type, keys stored from inside their own load", "C36": "hundreds of goroutines",
 "C38": "hundreds of goroutines", "C39": "thousands of results that go together", "C40": "timeouts of zero and below, values of any type",
 "C41": "hundreds of goroutines, values of any type", "C42": "thousands of entries that go together", "C44": "hundreds of goroutines",
 "C45": "timeouts of zero, thousands of keys that go together", "C47": "hundreds of goroutines",
 "C48": "timeouts of zero, thousands of keys that go together", "C50": "histories of thousands of elements, values to 70 kB",
 "C51": "thousands of elements that go together",
}

def main():
    P.sort(key=lambda p: p["id"])
    for p in P:
        if p["id"] in MORE:
            p["text"] += "; " + MORE[p["id"]]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                anchors["observe_at"] = list(p["observe"])
            anchors["hook_needed"] = None
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash check.sh --setup",
         "hooks": {"guard": "none", "enable": "no hooks in /repo: the schedule-fuzzing builds instrument a copy of its files with go's -overlay at check time", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"] + " thorough",
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [],
         "notes": "Replay a reported case with 'bash check.sh --replay FILE'. known_findings.json lists known and fixed findings."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
