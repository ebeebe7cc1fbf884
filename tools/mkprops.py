#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

CS, CH, CU = "cache/cachestring.go", "cache/cachehash.go", "cache/cacheutil.go"

# ---------------------------------------------------------------- local cache
prop("C01", "A stored value is read back byte for byte",
 "Whatever byte string is written to a key or hash field by any write command that takes a value (Set, SetNX, SetEX, PSetEX, GetSet, MSet, MSetNX, Append, SetRange, HSet, HSetNX, HMSet), every read command returns exactly those bytes and their exact length. This includes values that merely look numeric, such as \"007\", \"1.50\", \"1e5\", \"+3\", \"-0\", \"inf\" or \"0x10\", as well as the empty string and arbitrary binary data. Commands that take a condition (SetNX, MSetNX, HSetNX) leave an existing value's bytes alone.",
 ["inputs", "histories"],
 "All byte strings as keys, fields and values (empty, binary, every kind of numeric look-alike), through every write command and every read command, including a value that was rewritten by a different command before.",
 "The tests write a handful of literals (test, 1, 1.11, aa, b); a lossy internal number representation only shows for values whose canonical form differs from the bytes written.",
 [CS, CH], [("number detection on write", "cache/cachestring.go tryInt64"), ("formatting on read", "cache/cachestring.go fmtString"), ("hash field store", "cache/cachehash.go hashEntry.set/get")],
 [("dataDict", "key -> value (string, int, float64 or hash)", "cache/cache.go Cache")],
 ["return values of Get/GetSet/MGet/GetRange/StrLen/HGet/HMGet/HVals/HGetAll/HStrLen"])

prop("C02", "String edits and slices act on the value as a plain byte string",
 "Append, SetRange (non-empty replacement), GetRange and StrLen give the result, and leave the value, that the same operation on a plain byte string gives: a missing or expired key counts as empty, a gap is filled with zero bytes, negative range indexes count from the end, out-of-range indexes are clipped. A SetRange offset that is negative or beyond the 512 MB limit is refused and changes nothing. The time a call takes depends on the size of the value, not on the magnitude of the indexes.",
 ["inputs", "histories"],
 "All values (numeric-looking ones included), offsets from -2^63 to 2^63-1 for ranges and 0 to some 10^5 for edits, and all sequences of such commands on one key.",
 "The tests try a dozen index pairs on the value \"test\"; clipping at the extremes and edits of numeric-looking values are never reached.",
 [CS], [("append", "cache/cachestring.go Append"), ("overwrite with zero fill", "cache/cachestring.go SetRange"), ("index clipping", "cache/cachestring.go GetRange")],
 (), ["return values and a following Get"])

prop("C03", "Counters are exact, and a refused increment changes nothing",
 "Incr, IncrBy, Decr, DecrBy on a missing key or a canonical 64-bit decimal give exactly the arithmetic sum, return it, and store its decimal text, whichever command wrote the value before, IncrByFloat included. A value that is not an integer, and a result that would not fit 64 bits, is refused with an error and the stored bytes and expiry stay as they were; IncrByFloat likewise accepts any finite decimal and refuses text that is not a number as well as infinite or not-a-number results. The same holds for HIncrBy and HIncrByFloat on a hash field, where an empty field counts as zero.",
 ["inputs", "histories"],
 "All starting values (missing, canonical integers up to the 64-bit limits, decimals, near-numbers, text) and all sequences mixing integer and float increments, plain writes and edits, on keys and on hash fields.",
 "The tests add small numbers to a fresh key with one command each; mixing commands, limits, refusals and hash counters are not reached.",
 [CS, CH], [("integer add", "cache/cachestring.go incrBy"), ("float add", "cache/cachestring.go IncrByFloat"), ("hash add", "cache/cachehash.go HIncrBy, HIncrByFloat")],
 (), ["return values and following Get/HGet"])

prop("C04", "A key lives exactly as long as its expiry says",
 "A key written with a positive time to live (any length, however large) is visible to every command until that time has passed and to none afterwards: reads miss it, existence and type queries say absent, conditional writes succeed, and increments, appends and range edits start from an empty value. Overwriting a key with a write that carries no time to live (Set, GetSet, MSet) or deleting it removes the old expiry, while in-place edits (Append, SetRange, increments) keep it. A key without expiry never disappears by itself.",
 ["histories", "inputs"],
 "All sequences of commands and time steps over several keys, including operations issued after the deadline has passed but before anything has removed the key, and times to live from 1 ms to 2^63-1 seconds.",
 "Two tests sleep through one expiry of one key and then call Get only; no other command is ever issued against an expired key, nor a write over a key that has an expiry.",
 [CS, CU, "cache/cachedb.go", CH], [("deadline check on access", "cache/cacheutil.go expired/get"), ("deadline set and clear", "cache/cacheutil.go expires")],
 [("expiresDict", "key -> deadline", "cache/cache.go Cache")],
 ["return values of every command, under a virtual clock"])

prop("C05", "The background sweeper removes expired keys and nothing else",
 "With the periodic sweeper running, no key that has no expiry or whose expiry lies in the future is ever removed or changed, however many sweeps run. A key whose expiry has passed is gone after the next sweep and its memory is released even if nobody reads it. A key rewritten after its expiry is treated as a new key.",
 ["histories", "schedules"],
 "All mixes of strings and hashes with and without expiry, over many sweep periods, with and without commands running between and during sweeps.",
 "No test starts the sweeper (the call is commented out in the test file).",
 ["cache/cachecron.go", "cache/cache.go"], [("periodic sweep", "cache/cachecron.go cronExpire"), ("start", "cache/cache.go Cron")],
 [("expiresDict", "key -> deadline", "cache/cache.go Cache")],
 ["Get/Exists/HGetAll between sweeps under a virtual clock; heap in use after a sweep"])

prop("C06", "Concurrent string commands on a key act one at a time",
 "When any number of goroutines issue string commands and deletions, the results are those of some order in which each command took effect atomically between its call and its return. In particular no increment or append is lost, at most one of several competing SetNX calls on an absent key succeeds, and a read never sees a value nobody wrote. This also holds while keys expire or the whole cache is flushed.",
 ["schedules", "histories"],
 "All interleavings of two or more goroutines over Set, SetNX, SetEX, GetSet, Get, StrLen, Append, SetRange, GetRange, Incr, IncrBy, Decr, DecrBy, IncrByFloat, Del, Exists, Type, Flush on shared keys.",
 "No test runs two operations at the same time.",
 [CS, "cache/cachedb.go", CU], [("command lock", "cache/cache.go Cache.lock")],
 (), ["call/return history of every client goroutine"], "delay points inside the map wrapper (build tag verif)")

prop("C07", "Multi-key commands are all or nothing",
 "MSet's values become visible together: no MGet ever returns some of one MSet's values next to values they replaced. MSetNX sets every key and returns their number if none of them exists, and otherwise sets none and returns 0, also when it races with other writers. MGet and Exists report all their keys as of one moment (keys that expire during the call aside), with one entry per requested key in request order (a missing entry is an error value).",
 ["schedules", "histories", "inputs"],
 "All interleavings of MSet, MSetNX, MGet, Exists, Flush with each other and with single-key writers and expiries, over overlapping key sets; and all sequential uses with partially existing, expired and wrong-typed keys.",
 "The tests call MSet and MSetNX once each with disjoint or identical key sets from one goroutine, and never MGet.",
 [CS, "cache/cachedb.go"], [("command lock", "cache/cachestring.go MSet, MSetNX, MGet")],
 (), ["call/return history"], "delay points inside the map wrapper (build tag verif)")

prop("C08", "A hash behaves as a map from field to value",
 "Every hash command (HSet, HSetNX, HGet, HExists, HDel, HLen, HStrLen, HIncrBy, HIncrByFloat, HMSet, HMGet, HKeys, HVals, HGetAll) returns and leaves what the same operation on a plain map from field to bytes does, with HLen always the number of fields. Reading a missing key gives an empty result without an error or a not-found error, never a crash, and query commands change nothing. A hash whose last field is removed no longer exists.",
 ["histories", "inputs"],
 "All sequences of hash commands over several keys and fields, including missing keys and fields, numeric-looking values, and interleaved Del, Exists, Type and Flush.",
 "The tests call five of the fourteen commands, each once or twice on one field, and look at no aggregate query.",
 [CH, "cache/cachedb.go"], [("field map and length counter", "cache/cachehash.go hashEntry")],
 [("length", "number of fields", "cache/cachehash.go hashEntry")],
 ["return values of all hash commands"])

prop("C09", "Concurrent hash commands act one at a time",
 "When any number of goroutines issue hash commands on shared keys, the results are those of some order in which each command took effect atomically between call and return. No field, increment or whole hash created concurrently is lost, at most one competing HSetNX on a field succeeds, and the field count agrees with the fields. HMSet's fields become visible together to HMGet and HGetAll.",
 ["schedules", "histories"],
 "All interleavings of two or more goroutines over the hash commands, Del, Type and Exists on shared keys and fields, including creation and removal of the hash itself.",
 "No test runs two operations at the same time.",
 [CH, "cache/cachedb.go"], [("command lock", "cache/cachehash.go all commands")],
 (), ["call/return history"], "delay points inside the map wrapper (build tag verif)")

prop("C10", "A command against the wrong kind of value fails and changes nothing",
 "A string command applied to a hash, or a hash command applied to a string, returns the wrong-type error (or reports the key as existing or not set, for SetNX and MSetNX) and leaves the key, its value, its type and its expiry exactly as they were; only a plain overwrite (Set, SetEX, PSetEX, MSet) replaces it. Type reports hash for hashes, string for strings, and none for absent keys. No sequence of these commands panics.",
 ["histories", "inputs"],
 "All pairs of command and existing value kind, in all command sequences over a few keys that change kind over time, with all argument values.",
 "No test applies a command to a value of the other kind, and Type is never called.",
 [CS, CH, "cache/cachedb.go"], [("kind checks", "cache/cachehash.go getHashEntry; cache/cachestring.go fmtString; cache/cachedb.go Type")],
 (), ["return values; full state read back before and after each refused command"])

prop("C11", "The cache may be shared by goroutines without data races",
 "Any set of goroutines may call any of the cache's implemented commands on the same or different keys at the same time, with the sweeper running and the cache being flushed or fed by replication, without a data race, a fatal runtime error, a panic or a deadlock. The same holds for sharing one remote client and for one connected client as a whole.",
 ["schedules"],
 "All pairs of implemented commands running concurrently on shared keys and fields.",
 "The tests are sequential and are not run under the race detector.",
 ["cache", "redis/pool.go", "xxcache.go"], [("command lock", "cache/cache.go Cache.lock"), ("pool lock", "redis/pool.go Pool.l")],
 (), ["race detector reports; watchdog with goroutine dump"], "delay points inside the map wrapper (build tag verif)")

prop("C12", "Memory follows the data that is held",
 "The memory a cache holds follows the data that is in it. Whatever is removed or replaced (by Del, Flush, HDel, a new value of any command, or because its deadline passed and a command came across it) is released, keys and fields as well as values, and nothing else adds up: reads, misses, failed commands and data that comes and goes, however often, leave a cache no larger than one that never saw them.",
 ["histories", "inputs"],
 "All sequences of commands of any length over any number of different keys, fields and values of any size.",
 "Tests are short and look at answers, not at memory.",
 ["cache/cachedb.go", "cache/cachehash.go", "cache/cachestring.go", "cache/cacheutil.go"], [("removal", "cache/cachedb.go Del, Flush; cache/cachehash.go HDel"), ("lazy expiry", "cache/cacheutil.go expired"), ("deadlines", "cache/cacheutil.go expires")],
 [("dataDict, expiresDict", "values and deadlines", "cache/cache.go Cache")], ["heap in use after full collections, before the data came and after it went"])

# ---------------------------------------------------------------- redis protocol and client
prop("R01", "A protocol message survives being sent and received",
 "Any message (bulk string with arbitrary bytes of any size, nil, simple string, error, integer, and arrays of these, nested and empty) that is serialised onto a connection is received as an equal message of the same kind, and the receiver consumes exactly its bytes, so that the next message starts at the right place. This is independent of how the bytes are split into reads on the way. The serialised form is the one the Redis protocol (RESP2) defines. Streaming a message to a writer hands over exactly its content.",
 ["inputs", "schedules"],
 "All message trees, payloads from 0 bytes to several times the connection buffer, containing CR, LF and protocol bytes, in pipelines of several messages, under every fragmentation of the byte stream.",
 "No test parses or serialises a message (one test logs a failed dial).",
 ["redis/conn.go", "redis/protocol.go", "redis/redis.go"], [("parser", "redis/conn.go readMessage"), ("serialisers", "redis/protocol.go Serialize")],
 (), ["messages returned by Recv over a byte pipe with controlled fragmentation"])

prop("R02", "A cut or malformed reply is an error, never a wrong value or a crash",
 "When the byte stream ends or breaks in the middle of a message, or does not follow the protocol (unknown type byte, bad or negative or absurd length, non-numeric integer), receiving returns an error. It never panics, never exhausts memory on the strength of an announced length alone, and never returns a message built from part of a payload.",
 ["inputs", "fault_sequences"],
 "Every prefix of every valid message, every single-byte corruption of the header parts of small messages, and arbitrary byte strings (array nesting up to 1000 levels).",
 "No test feeds the parser anything.",
 ["redis/conn.go"], [("parser", "redis/conn.go readMessage")],
 (), ["result of Recv on generated byte streams; memory allocated per call"])

prop("R03", "Each client call is one faithful Redis command and its reply decoded",
 "Every method of the remote client sends exactly one command, the Redis command of its name with its arguments in Redis' order and exact bytes, and returns the decoded reply: status or bulk text, integer, float, or one entry per key for multi-get. A server error, a nil reply or a failed transmission is returned as an error, and a successful reply is never returned as an error or as a zero value.",
 ["inputs"],
 "All methods (Set, SetNX, SetEX, PSetEX, Get, GetSet, StrLen, Append, SetRange, GetRange, Incr, IncrBy, IncrByFloat, Decr, DecrBy, MSet, MSetNX, MGet, Select), all argument bytes and numbers, and all reply kinds a server may give to the command.",
 "The one test calls Get without a server and logs the error.",
 ["redis/redis.go", "redis/command.go"], [("command construction", "redis/redis.go"), ("reply decoding", "redis/command.go Parse")],
 (), ["commands received by a Redis stand-in on the loopback; return values"])

prop("R04", "Every caller gets the reply to its own command, within the pool limit",
 "However many goroutines share a remote client, each call returns the reply the server gave to that very command, every command is sent exactly once, and never more connections are open than the configured pool size (20 if none is configured). Calls beyond the pool size wait and then proceed, those within it do not wait for one another. A function given to the pool runs once, with a connection of its own for as long as it runs, and gives it back however it ends.",
 ["schedules", "histories"],
 "All interleavings of more callers than connections, for pool sizes 1 to 20 and the default, with delayed, reordered-across-connections and fragmented replies and interleaved server error replies.",
 "No test has a server or two callers.",
 ["redis/pool.go", "redis/conn.go"], [("bounded pool", "redis/pool.go Get/Put"), ("request/reply on one connection", "redis/conn.go SendAndWaitReply")],
 [("size", "connections created", "redis/pool.go Pool")],
 ["server-side log of connections and commands against client-side log of calls"])

prop("R05", "The remote client recovers after connection failures",
 "After a failed dial, a refused handshake, a dropped connection, or a reply cut short or garbled, the failed call returns an error, no later call ever receives a leftover reply of an earlier command, and no call blocks for ever. Once the server is reachable again, at most one call per pooled connection fails and all later ones succeed. Closing the pool closes its idle connections and returns.",
 ["fault_sequences", "schedules"],
 "All sequences of faults (refused dial, failed AUTH/SELECT, close before, during and after the reply, garbled reply, server restart) placed at any command, with one or many callers, for pool sizes 1 to 20.",
 "The only test makes one call against a closed port.",
 ["redis/pool.go", "redis/conn.go"], [("connection creation and reuse", "redis/pool.go Get/create/Put"), ("error marking", "redis/conn.go Send/Recv")],
 (), ["client-side results against the server's fault script"])

prop("R06", "No command is sent on a connection before AUTH and SELECT succeeded",
 "When a password or database is configured, every connection the client opens authenticates first, then selects the database, and only then carries commands; a connection on which either step failed is closed and never carries a command, and the caller gets an error. Without them no such command is sent.",
 ["configurations", "fault_sequences"],
 "All combinations of password, database and pool size, with the handshake accepted, refused or cut at either step on any connection.",
 "No test configures a password or a database.",
 ["redis/redis.go", "redis/pool.go"], [("open handlers", "redis/redis.go NewClient; redis/pool.go create")],
 (), ["per-connection command log of a Redis stand-in"])

prop("R07", "Configured timeouts bound every call and late replies are dropped",
 "With a read or write timeout configured, a call on a server that does not answer (or does not read) fails within that time plus a small margin (and the time it waited for a free connection if all were in use) instead of blocking, however many other calls are in the same position, and a server that answers in time is never failed by it, however long the connection was idle before. The reply that arrives after the call gave up is never handed to a later call, and calls after that succeed on a fresh connection. Without a configured timeout a slow answer is waited for.",
 ["fault_sequences", "schedules"],
 "All patterns of prompt, slow, partial and missing answers over a sequence of calls on a shared pool, with idle periods longer than the timeout in between.",
 "No test configures a timeout or has a slow server.",
 ["redis/conn.go", "redis/pool.go", "redis/redis.go"], [("deadlines", "redis/conn.go SendAndWaitReply"), ("retiring a broken connection", "redis/pool.go Put/renew")],
 (), ["call results and durations; per-connection log of a Redis stand-in"])

prop("R08", "Calls leave nothing behind",
 "Once calls on a client have returned, with an answer or without (an error reply, a timeout, a connection lost, cut or garbled, a handshake refused, a dial that failed, a context that ended), nothing of them remains: no goroutine goes on running for them, no connection is open beyond the pool's size (none if none ever got through its handshake, none once the pool is closed), and memory does not grow with the number of calls made. This does not depend on the garbage collector.",
 ["fault_sequences", "histories"],
 "All numbers of calls of any kind from any number of goroutines, all pool sizes, all ways for a server to answer, not to answer, or to fail at any step.",
 "A leaked connection, goroutine or record does no visible harm in a test of a few calls, and no test makes a call fail.",
 ["redis/pool.go", "redis/conn.go", "redis/redis.go"], [("opening and giving up connections", "redis/pool.go create, open, renew, Close"), ("running a command", "redis/conn.go ExecCommand, SendAndWaitReply")],
 [("connC, slots", "connections of a pool", "redis/pool.go Pool")], ["connections open at a Redis stand-in, /proc/self/fd, stacks of all goroutines and heap in use, after the calls"])

# ---------------------------------------------------------------- decoders
prop("D01", "LZF compression is lossless and decoding follows the LZF format",
 "For every byte string, decompressing its compressed form to the original length gives the original back, whether or not it was compressible. Decompressing any well-formed LZF stream that is shorter than its output (literal runs, short and long back references, overlapping copies) gives the bytes the format defines.",
 ["inputs"],
 "All byte strings including empty, one-byte, incompressible, highly repetitive and buffer-boundary lengths; all well-formed LZF streams, also ones this compressor would not emit, that are shorter than their output.",
 "The tests log the result for one ten-byte string without asserting anything.",
 ["redis/lzf/lzf.go", "redis/lzf/lzf_c.c", "redis/lzf/lzf_d.c"], [("wrapper and stored-raw convention", "redis/lzf/lzf.go"), ("codec", "redis/lzf/lzf_c.c, lzf_d.c")],
 (), ["results of Compress/DeCompress against an independent decoder"])

prop("D02", "The LZF codec never touches memory outside its buffers",
 "Compressing or decompressing any input, well-formed or corrupt, with any buffer sizes the callers can pass, reads and writes only inside the given buffers, has no undefined behaviour, terminates, and reports corrupt or oversized data as failure instead of success with missing bytes.",
 ["inputs"],
 "All inputs and output sizes: arbitrary and corrupted compressed streams, announced lengths too small, exact and too large, inputs from 0 bytes to beyond the window size.",
 "The tests decode one valid stream in an uninstrumented build.",
 ["redis/lzf/lzf_c.c", "redis/lzf/lzf_d.c", "redis/lzf/lzf.go"], [("bounds checks", "redis/lzf/lzf_d.c, lzf_c.c"), ("buffer sizing", "redis/lzf/lzf.go")],
 (), ["AddressSanitizer and UndefinedBehaviorSanitizer reports; return values"])

prop("D03", "Compact list encodings decode to the exact elements",
 "For every list of elements, decoding its ziplist encoding returns exactly those elements in order, integers as their signed decimal text, for every element form the format has (6, 14 and 32-bit string lengths, 4-bit immediates, 8, 16, 24, 32 and 64-bit integers) and every form of previous-entry length.",
 ["inputs"],
 "All lists mixing all element forms, string lengths across the 63/64, 253/254 and 16383/16384 boundaries, all integer widths with negative and extreme values, and lists with more entries than the 16-bit count field holds.",
 "The package has no tests.",
 ["redis/ziplist/ziplist.go"], [("entry decoding", "redis/ziplist/ziplist.go entry/prevLength/Next")],
 (), ["result of Load against an independent encoder"])

prop("D04", "Integer-set encodings decode to the exact signed integers",
 "For every set of integers, decoding its intset encoding (16, 32 or 64-bit little endian) returns exactly those integers, with their sign, in stored order.",
 ["inputs"],
 "All integer lists in all three widths, with zero, negative and extreme values, from empty to thousands of members.",
 "The package has no tests.",
 ["redis/intset/intset.go"], [("member decoding", "redis/intset/intset.go Load")],
 (), ["result of Load against an independent encoder"])

prop("D05", "Zipmap encodings decode to the exact field-value pairs",
 "For every field-value mapping, decoding its zipmap encoding returns exactly that mapping, for any number of pairs, any lengths (one-byte and five-byte length forms) and any number (0 to 253) of slack bytes after a value. A zipmap built with the package's own writer decodes to exactly the pairs written, the latest value for each field, and looking a field up finds it if and only if it was written.",
 ["inputs", "histories"],
 "All mappings with 0 to several hundred pairs, empty and long fields and values across the 253/254 boundary, slack 0 to 252; all sequences of writes and lookups.",
 "The one test writes one pair and logs the result.",
 ["redis/zipmap/zipmap.go"], [("decoder", "redis/zipmap/zipmap.go Load"), ("writer and lookup", "redis/zipmap/zipmap.go Set/Lookup")],
 (), ["results of Load/Set/Lookup against an independent encoder"])

prop("D06", "Snapshot primitives decode to the exact lengths, strings and scores",
 "Lengths (6, 14, 32 and 64-bit forms), strings (raw of any size, 8, 16 and 32-bit signed integers, compressed) and scores (text and binary doubles, both infinities) read from a snapshot stream decode to exactly the value encoded, and consume exactly its bytes, however the stream delivers them.",
 ["inputs", "schedules"],
 "All values of each primitive including boundaries, signs and infinities, strings larger than the read buffer, under every fragmentation of the underlying stream.",
 "The package has no tests.",
 ["redis/rdb/rdb.go"], [("length decoding", "redis/rdb/rdb.go LoadLen"), ("string decoding", "redis/rdb/rdb.go LoadString"), ("score decoding", "redis/rdb/rdb.go LoadDouble, LoadBinaryDouble")],
 (), ["results of the loaders against an independent encoder"])

prop("D07", "Loading a snapshot yields commands that rebuild the dataset exactly",
 "For every dataset Redis can save in the supported encodings, loading the snapshot succeeds and emits, per database, commands which, run on an empty Redis, rebuild exactly that dataset: every key (the empty key included) with its type, value, element order and scores, and its absolute expiry time if it has one and none otherwise. The replication id and offset recorded in the snapshot are adopted.",
 ["inputs", "configurations"],
 "All datasets of strings, lists, sets, sorted sets and hashes over several databases, each in every supported encoding, with and without second or millisecond expiries, idle/frequency markers, resize hints, auxiliary fields and module auxiliary data, in any order.",
 "No test loads a snapshot.",
 ["redis/replication.go", "redis/rdb/rdb.go", "redis/ziplist/ziplist.go", "redis/intset/intset.go", "redis/zipmap/zipmap.go"],
 [("snapshot loader", "redis/replication.go Load")],
 [("database", "database selected by the snapshot or stream", "redis/replication.go Replication")],
 ["the messages emitted by Load, interpreted by a model Redis, against the dataset an independent writer encoded"])

prop("D08", "A damaged or unsupported snapshot is reported, not crashed on or passed",
 "Loading a snapshot that is truncated anywhere before its end marker, structurally corrupt, not a snapshot at all, or contains an object kind that is not supported returns an error. It never panics or ends the process, never hangs, never exhausts memory on the strength of an encoded length, and never reports success after dropping data.",
 ["inputs", "fault_sequences"],
 "Every truncation point and every single-byte corruption of generated snapshots covering all encodings, absurd lengths in every length field, every unsupported type code, and arbitrary bytes.",
 "No test loads a snapshot.",
 ["redis/replication.go", "redis/rdb/rdb.go", "redis/ziplist/ziplist.go", "redis/intset/intset.go", "redis/zipmap/zipmap.go", "redis/lzf/lzf.go"],
 [("loader error handling", "redis/replication.go Load")],
 (), ["result of Load, process survival, memory in use"])

# ---------------------------------------------------------------- replication end to end
prop("X01", "A connected client answers from the master's data",
 "Once a client has connected and caught up with the master's stream, reading any key through it gives what the master holds for the key in the client's database: the exact value, or an error if there is none or it is not a string. This holds whatever mix of data the snapshot held, whatever commands followed, and in whichever databases they ran.",
 ["histories", "inputs", "schedules"],
 "All snapshot datasets followed by all streams of Redis write commands over several databases (SELECT in the stream), with any fragmentation and timing of the stream.",
 "The client's tests need a live Redis, are not part of the test run, and read one key.",
 ["xxcache.go", "command.go", "cache/message.go", "redis/replication.go"],
 [("local first, then master", "command.go Get"), ("stream application", "xxcache.go handleReplication; cache/message.go HandleMessage"), ("database tracking", "redis/replication.go WaitForMessage")],
 (), ["Client.Get against the model dataset of a Redis stand-in master"])

prop("X02", "The local copy never contradicts the master after a replicated command",
 "After a replicated command has been applied, each key it may have changed is locally either absent or exactly the master's value; a key the command does not name keeps its local value unless the command is one that may affect everything (a flush, a swap of databases, a script). A plain SET makes the value available locally. Commands the cache cannot replay, malformed ones and non-commands are reported as errors, never applied partially and never crash the process.",
 ["histories", "inputs"],
 "All sequences of Redis write commands of all types (known and unknown to the cache, any letter case, any arity, option arguments) over a few keys that change type, and arbitrary other messages.",
 "The test for applying messages is commented out.",
 ["cache/message.go"], [("command application", "cache/message.go HandleMessage")],
 (), ["every key's local value after every message, against a model Redis"])

prop("X03", "No replicated input stops replication",
 "Commands that cannot be applied, in any number and any order, errors on the acknowledgement path, and keep-alive pings never block or end the application of later commands. When the replication link is lost, the client keeps working and stops answering from its local copy, which is no longer kept up to date.",
 ["histories", "fault_sequences", "schedules"],
 "All streams mixing applicable and inapplicable commands in runs of any length, pings at any position, and loss of the link at any byte position.",
 "No test runs a replication stream.",
 ["xxcache.go", "redis/replication.go"], [("message loop", "xxcache.go handleReplication"), ("stream reader", "redis/replication.go WaitForMessage")],
 [("Messages, Err", "channels between reader and applier", "redis/replication.go Replication")],
 ["a marker key written at the end of the stream becoming readable; reads after the link is cut"])

prop("X04", "A local miss is answered by the master",
 "A read through the connected client of a key that is not in the local copy asks the master and returns its answer, and a read of a key that is in the local copy is answered without contacting the master. A write through the client reaches the master as one command with exact bytes and returns the master's verdict.",
 ["histories", "inputs"],
 "All keys and values, present locally, only on the master, on neither, expired, or changed by commands the cache cannot replay; master answers of every kind, errors included.",
 "The client's tests need a live Redis, are not part of the test run, and never miss locally.",
 ["command.go", "xxcache.go"], [("local first, then master", "command.go Get"), ("write through", "command.go Set")],
 (), ["commands received by a Redis stand-in master; results of Get and Set"])

prop("X05", "The snapshot transfer is stored exactly or refused",
 "A synchronisation stores exactly the bytes the master announced, neither fewer nor more, whatever their content and however they arrive, and leaves the stream positioned at the first byte after them; newline keep-alives before the announcement are skipped. If the master does not answer the ping properly, refuses the synchronisation, answers with anything but a snapshot, or the transfer is cut short, synchronising fails with an error, and so does connecting a client, also if an earlier session left a snapshot file. An option left empty means the master 127.0.0.1:6379 and the file temp.rdb.",
 ["inputs", "fault_sequences", "schedules"],
 "All payloads (binary, containing CR/LF and protocol bytes, from 0 bytes to several buffers), all fragmentations, any number of keep-alives, every kind of refusal, every cut position.",
 "No test synchronises.",
 ["redis/replication.go", "redis/conn.go"], [("handshake", "redis/replication.go SyncWithRedis, ping, sync"), ("bulk copy to file", "redis/conn.go ReadWithWriter")],
 (), ["snapshot file content; result of SyncWithRedis; first stream message afterwards"])

prop("X06", "Acknowledgements report the true replication position",
 "While connected, the client regularly acknowledges a replication offset to the master, and that offset is the snapshot's offset plus the number of stream bytes received since, never more than the master has sent and never going backwards. After the stream has been idle for an acknowledgement period it equals the master's offset.",
 ["histories", "schedules"],
 "All streams of commands, selects and pings of any size and fragmentation, interleaved with the periodic acknowledgement.",
 "No test runs a replication stream.",
 ["redis/replication.go"], [("periodic acknowledgement", "redis/replication.go Ack"), ("offset bookkeeping", "redis/replication.go WaitForMessage, SetReplicationOffset")],
 [("Offset", "replication position", "redis/replication.go Replication")],
 ["REPLCONF ACK commands received by a Redis stand-in master against the bytes it had sent"])

prop("X07", "A failed connection attempt leaves nothing behind",
 "When connecting to a master fails at any step (no master, an odd answer to the ping, a refused or cut transfer, a file that cannot be written, a snapshot that cannot be loaded), the caller gets an error and afterwards no connection to the master stays open, no goroutine of the attempt goes on running, and no file stays open, whether or not the garbage collector runs, so that connecting may be retried any number of times. A client that connected keeps its one link and no open snapshot file, and closes the link when it gives it up.",
 ["fault_sequences", "histories"],
 "All faults of the master at every step of connecting, repeated and concurrent attempts, snapshots of any size whose loading fails at any point, and links that stop carrying commands.",
 "No test makes connecting fail; a leaked descriptor or goroutine does no visible harm until thousands have piled up.",
 ["xxcache.go", "redis/replication.go"], [("connect", "xxcache.go New"), ("synchronise", "redis/replication.go SyncWithRedis"), ("load", "redis/replication.go Load")],
 [("conn", "the replication link", "redis/replication.go Replication")],
 ["connections open at the master, descriptors in /proc/self/fd and running goroutines, within seconds of the failure and without the garbage collector, which closes what is forgotten, having run"])

prop("X08", "Independent objects do not interfere",
 "Two caches, two remote clients (of different servers, or of different databases of one), two connected clients with snapshot files of their own, and two runs of a decoder share nothing observable. Whatever is done with one of them at the same time, by whatever goroutines (filling, flushing, expiring, connecting, failing to connect, losing or waiting for its server), every call on another one gives exactly the result it gives alone: its data, expiries, password, database, pool, timeouts, local copy, link and acknowledged offset are its own, and snapshots and compact encodings loaded side by side give the values they give one after the other, and data compressed side by side unpacks to its input.",
 ["schedules", "histories"],
 "All scripts of commands on any number of caches and clients of one process, all interleavings of them, all faults of one of the servers, all inputs decoded side by side.",
 "The tests use one object at a time.",
 ["cache/cache.go", "cache/cacheutil.go", "redis/pool.go", "redis/redis.go", "redis/conn.go", "redis/replication.go", "redis/rdb/rdb.go", "redis/lzf/lzf_c.c", "xxcache.go"],
 [("construction", "cache/cache.go New, redis/redis.go NewClient, redis/conn.go NewConn, xxcache.go New"), ("scratch memory of decoders", "redis/rdb/rdb.go, redis/lzf/lzf_c.c")],
 (), ["results of the public API of each object, connections and commands at each server"])

prop("X09", "A connected client's footprint follows its data, not its history",
 "However long a replication stream goes on, and whatever it consists of (values that come and go, are rewritten or expire, commands and databases that are not followed, large messages, selects, pings, nonsense), a connected client's memory follows the local copy it holds, and it holds no more goroutines, connections or files than when it connected. Data that leaves the local copy, by whatever command or because the link is lost, is released, and so is what attempts to connect had loaded before they failed. Once the link is lost nothing of the replication goes on running.",
 ["histories", "fault_sequences"],
 "All streams of any length and content, all ways for data to leave the local copy, all losses of the link.",
 "No test runs a replication stream, let alone a long one; a slow leak is invisible in a short run.",
 ["xxcache.go", "redis/replication.go", "cache/message.go"], [("reading the stream", "redis/replication.go WaitForMessage"), ("applying it", "xxcache.go handleReplication; cache/message.go HandleMessage"), ("acknowledging", "redis/replication.go Ack")],
 [("Messages", "commands read and not applied yet", "redis/replication.go Replication")], ["heap in use after full collections, /proc/self/fd and stacks of all goroutines, before, during and after the stream"])

prop("X10", "Nothing takes more time than its size warrants",
 "A command on one key, or on one field of a hash, takes no longer because the cache holds many other keys or the hash many other fields, so that clients stay fast as their local copy grows; the same holds for applying such a command from a replication stream. Whatever works on many items or many bytes (commands with many keys or fields, long values, messages received, sent or printed, snapshot transfers, compressing and unpacking, decoding the compact encodings, loading snapshots) takes time about in proportion to their number: no number of elements, fields, arguments or bytes makes it grow with its square.",
 ["inputs", "histories"],
 "All numbers of keys, fields, elements, arguments and bytes, all content, with or without expiries.",
 "The tests use a handful of small items; time that grows with the square, or a scan of everything, is not felt before the data are large.",
 ["cache/cache.go", "cache/message.go", "redis/conn.go", "redis/message.go", "redis/rdb/rdb.go", "redis/ziplist/ziplist.go", "redis/lzf/lzf.go", "redis/replication.go"],
 [("commands on one key", "cache/cache.go"), ("receiving", "redis/conn.go Recv"), ("decoders", "redis/ziplist/ziplist.go Load, redis/rdb/rdb.go, redis/lzf"), ("loading", "redis/replication.go Load")],
 (), ["time taken by the public operations at two sizes that differ by a factor of 64, the fastest of several timings each"])

prop("X11", "Reads through a client never go back in the master's history",
 "What the local copy answers is, at every moment, the master's data as of some position of its stream, and that position only moves forward. So a read that starts after another one returned never shows a state that is older than the other one showed, of the same key or of any other, and whoever made them: who has seen a later write sees every earlier one, removals and writes of several keys at once included. A value that is not from the local copy is the answer the master gives to that read. No read gives a value the key never had in the client's database.",
 ["schedules", "histories"],
 "All streams of commands on any keys and databases, arriving in any pieces and bursts, all interleavings of their application with any number of reading and writing goroutines.",
 "The tests never read while a stream is applied; a state that is out of order lasts microseconds.",
 ["xxcache.go", "command.go", "cache/message.go", "redis/replication.go"],
 [("applying the stream", "xxcache.go handleReplication; cache/message.go HandleMessage"), ("reading it in order", "redis/replication.go WaitForMessage"), ("reads", "command.go Get")],
 [("Messages", "commands read and not applied yet", "redis/replication.go Replication")], ["results of Get of concurrent readers, each of which names the position of the stream that wrote it; the master's own answers are marked"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
