#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they can be reviewed and edited as a table)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- writing
prop("W01", "A write is acknowledged only if every in-window sample was stored",
 "A remote-write request is answered with success only if its body was completely received, decompressed and decoded, and every sample in it that has a non-zero timestamp inside the current chunk's window (both ends included) was inserted under that sample's own label set. Any failure on the way (decoding, index lookup, index creation, storage write) makes the request, and every API call it passes through, report an error.",
 ["inputs", "fault_sequences"], "every request body, every placement of samples relative to the chunk window, every single or repeated backend failure",
 "The only server test is ignored; no test injects a storage or index failure, and none sends a truncated or undecodable body.",
 ["src/server.rs", "src/db.rs", "src/chunk/chunk.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
 [("request decoding and reply", "server.rs: _process, write"), ("window filter and error collection", "db.rs: write_time_points"), ("series lookup, index creation, storage write", "chunk.rs: insert")],
 ["HTTP status of a write request", "Result of MonolithDb::write_time_points / Chunk::insert / Storage::write_time_point"])
prop("W02", "Storing a point appends exactly that point to exactly its own series",
 "After a point has been stored successfully in a series, the persisted content of that series is its previous content followed by exactly that timestamp and value, and the content of every other series is unchanged; a failed backend operation is reported. Reading a series looks at the same place the write used, for every series id and both storage backends.",
 ["inputs", "histories", "fault_sequences"], "every series id, timestamp, value, previous content and backend failure, for both storage backends",
 "Tests store a handful of points in one or two series and never fail a backend write.",
 ["src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
 [("read-append-write of the encoded series", "Storage::write_time_point of both backends"), ("key construction", "series id to key in both backends"), ("point codec", "KvStorageProcessor encode/decode")],
 ["Storage::read_time_series", "backend key/value content"])
prop("W03", "A chunk admits exactly the timestamps of its own time window",
 "A point is accepted by a chunk if and only if its timestamp lies inside the chunk's time window, both ends included; a point outside is refused with an out-of-range error and leaves index and storage untouched. The write path of the database hands a chunk every non-zero in-window sample and no out-of-window sample.",
 ["inputs"], "every timestamp and window, in particular the window's end points",
 "Tests insert points well inside or far outside the window; the end points are never tried.",
 ["src/chunk/chunk.rs", "src/db.rs"], [("window test", "chunk.rs: insert"), ("pre-filter of samples", "db.rs: write_time_points")],
 ["Result of Chunk::insert", "Result of MonolithDb::write_time_points"])
prop("W04", "One label set is one series, and no two series share an id",
 "Within a chunk the first point of a label set creates exactly one new series whose id was never given to another series, and every later point with the same label set goes to that same series. The order in which the labels are listed does not matter.",
 ["inputs", "histories", "schedules"], "every sequence of inserts and label order, and concurrent inserts",
 "Tests insert sequentially with few label sets, so neither a racy id nor an order-sensitive lookup can show.",
 ["src/chunk/chunk.rs", "src/common/mod.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"],
 [("lookup-or-create", "chunk.rs: insert"), ("id allocation", "common/mod.rs: IdGenerator"), ("canonical label set key", "indexer/sled_indexer.rs: KvIndexerProcessor")],
 ["series returned by Chunk::query"])
prop("W05", "A series counts as existing only when it is fully indexed and durable",
 "Indexing a new series reports success only after the label-set-to-id, id-to-label-set and every label-to-ids mapping has been written successfully, and for the on-disk index flushed to disk. The mapping that makes the series count as existing is written after the others, and the first point of a series is stored only after its index was created, so a crash or error in between never leaves a series that accepts points but cannot be found.",
 ["crash_points", "fault_sequences"], "every crash or backend failure between any two index or storage writes, every label set including the empty one",
 "No test crashes or fails a write in the middle of indexing.",
 ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/chunk/chunk.rs"],
 [("index creation", "Indexer::create_index of both indexers"), ("index before data", "chunk.rs: insert")],
 ["backend operations in order", "Result of Indexer::create_index"])
prop("W06", "Index entries are written where lookups read them, without loss",
 "For both indexers, looking up by a single label, by full label set or by id uses the same key and value encoding that indexing a series used, and indexing a series appends its id to each of its labels' id lists while keeping all ids already there in order. A full label set, a single label, and an id are kept under distinct key prefixes, and decoding a stored label set gives back the labels that were encoded.",
 ["inputs", "histories"], "every label set, id, and sequence of index creations",
 "Tests pin two or three literal keys of one indexer.",
 ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], [("key and value codec", "sled_indexer.rs: KvIndexerProcessor"), ("posting list update", "create_index of both indexers"), ("posting list lookup", "get_series_id_contains_labels of both indexers")],
 ["backend key/value content", "Indexer lookups"])
# ---------------------------------------------------------------- reading
prop("R01", "Reading a series returns exactly its points in the range, in time order",
 "Reading a stored series over a time range returns exactly the stored points whose timestamp lies in the range, both ends included, in ascending time order, whatever the insertion order or the relation of the range to the data. An empty or inverted range, or one that misses the data, yields no points or an out-of-range error, never a panic, and an unknown series yields a not-found error.",
 ["inputs", "histories"], "every stored series (in any insertion order, with duplicates) and every range",
 "Tests read two or three ordered points with ranges that hit them exactly.",
 ["src/storage/common.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"], [("range selection", "storage/common.rs: trim_time_series"), ("series decoding and range pre-check", "read_time_series of both backends")],
 ["Storage::read_time_series"])
prop("R02", "A label query matches exactly the series that have all requested labels",
 "A lookup by labels returns exactly the series that carry every requested label, each once, together with its full label set; a requested label no series has yields no series at all. A failing backend read or an undecodable entry makes the lookup fail instead of being skipped.",
 ["inputs", "histories", "fault_sequences"], "every set of indexed series, every requested label set, every backend failure, both indexers",
 "Tests only query labels that all exist and never fail a backend read.",
 ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], [("per-label id lists intersected", "get_series_id_contains_labels of both indexers"), ("id to labels", "get_series_metadata_contains_labels of both indexers")],
 ["Indexer lookups"])
prop("R03", "Intersecting id lists keeps exactly the ids common to all of them",
 "Intersecting any number of ascending id lists returns, in ascending order, exactly the ids present in every list, however many lists there are and however long they are. One list is returned as it is, and an error in any part makes the whole intersection fail.",
 ["inputs", "schedules"], "every number and length of ascending lists, every completion order of the worker threads",
 "Tests intersect prefix-shaped lists, which many wrong algorithms also intersect correctly.",
 ["src/common/utils.rs", "src/common/mod.rs"], [("pairwise merge", "common/mod.rs: order_intersect"), ("divide and conquer", "utils.rs: intersect_time_series_id_vec")],
 ["intersect_time_series_id_vec", "OrderIntersect::order_intersect"])
prop("R04", "A chunk query returns every matching series that has points in range",
 "A query on a chunk whose window overlaps the requested range returns every series carrying all requested labels that has at least one point in range, each once, with its own labels and exactly its points in that range; a matching series without points in range is left out and does not make the query fail. A chunk whose window does not overlap reports out of range, and any other index or storage failure makes the query fail.",
 ["inputs", "histories", "fault_sequences"], "every chunk content, label set, range, and backend failure",
 "Tests query series that all have points in the whole range.",
 ["src/chunk/chunk.rs", "src/common/utils.rs"], [("overlap test", "utils.rs: is_duration_overlap"), ("per-series read", "chunk.rs: query")],
 ["Chunk::query"])
prop("R05", "A database query combines all overlapping chunks, complete and in time order",
 "A query over the database returns, for each label set, the points of every chunk (current or older) whose window overlaps the requested range, each point once and in time order, and asks no information of chunks that do not overlap. Series of different label sets are never merged and none is dropped.",
 ["inputs", "histories"], "every number and layout of chunks, every range and label set",
 "No test has more than one chunk, or calls the database's query at all.",
 ["src/db.rs"], [("merge over current and older chunks", "db.rs: query"), ("order of older chunks", "db.rs: read_existing_chunk, swap")],
 ["MonolithDb::query"])
prop("R06", "Read failures are reported, never returned as a partial or empty result",
 "If any chunk, index or storage operation needed to answer a query fails, or stored data cannot be decoded, the query fails and the client gets an error status. It never gets a success reply with the affected series or points silently missing.",
 ["fault_sequences", "inputs"], "every backend failure at every read, every corrupt stored value",
 "No test injects a read failure.",
 ["src/server.rs", "src/db.rs", "src/chunk/chunk.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
 [("error propagation chain", "server.rs: query -> db.rs: query -> chunk.rs: query -> indexer/storage reads")],
 ["HTTP status of a read request", "Result of each query API"])
# ---------------------------------------------------------------- server
prop("S01", "Every HTTP request gets exactly one reply with the right status",
 "A request to the read path gets one reply: 200 with the compressed encoded result if and only if the query was decoded, non-empty and answered, otherwise an error status; a request to the write path gets one reply: 200 if and only if the write was decoded and carried out, otherwise an error status; any other path gets 404. A request is never left without a reply, and the read and write paths are the configured ones.",
 ["inputs", "fault_sequences"], "every request path, body and internal failure",
 "The server test is ignored; request handling is never executed by the suite.",
 ["src/server.rs"], [("routing and replies", "server.rs: _process")], ["HTTP responses"])
prop("S02", "No client request can crash the server",
 "Whatever bytes a client sends to whatever path, handling the request does not panic: a truncated, undecodable, empty or absurd request (including inverted or negative time ranges, missing labels and extreme timestamps) is answered with a reply. The process keeps serving other clients.",
 ["inputs"], "every request body and path",
 "The suite sends no request to the server at all.",
 ["src/server.rs", "src/db.rs", "src/chunk/chunk.rs", "src/storage/common.rs", "src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"], [("request decoding", "server.rs: _process"), ("code reachable from a request", "query and write call graph")],
 ["process liveness", "panic sites reachable from _process"])
prop("S03", "Labels, samples and time bounds cross the wire unchanged",
 "Label names and values, sample timestamps and values, and query time bounds are carried between the wire format and the database unchanged and in order: name stays name, value stays value, start stays start, end stays end (negative bounds are treated as zero). A read reply contains one result per query in request order, and each result contains every series the database returned for that query with all its labels and samples in order.",
 ["inputs"], "every request and every query result",
 "No test converts a populated message in either direction.",
 ["src/server.rs", "src/common/label.rs", "src/common/time_point.rs", "src/common/time_series.rs"], [("conversions", "From impls in label.rs, time_point.rs, time_series.rs"), ("request mapping", "server.rs: query, write")],
 ["ReadResponse", "arguments of MonolithDb::query / write_time_points"])
prop("S04", "A query honours each matcher's comparison type",
 "A label matcher of a query selects series by its own comparison type: an equality matcher selects the series whose label equals the value, and a negative or regular-expression matcher is never silently evaluated as an equality.",
 ["inputs"], "every matcher type", "No test sends a matcher other than equality, or any matcher at all, to the server.",
 ["src/server.rs", "src/common/label.rs"], [("matcher conversion", "label.rs: from_label_matcher")], ["MonolithServer::query"])
# ---------------------------------------------------------------- database life cycle
prop("D01", "A database directory opens only with the backends that created it",
 "Opening a directory that already holds a database succeeds only if both its recorded storage backend and its recorded index backend are the ones now requested; otherwise opening fails and the recorded information is left untouched. A new directory gets a record naming exactly the backends in use, and unreadable or invalid recorded information is an error, never overwritten.",
 ["inputs", "configurations", "fault_sequences"], "every recorded and requested backend combination, every failure reading or writing the record",
 "The test checks one all-different combination; a single differing field or an unreadable record is never tried.",
 ["src/db.rs", "src/common/metadata.rs"], [("metadata check", "db.rs: read_or_create_metadata")], ["Result of MonolithDb::new", "metadata file"])
prop("D02", "A chunk's directory name encodes exactly its time window",
 "For every start and end time the directory name of a chunk decodes to exactly that start and end time, and two different windows never get the same name. A name that is not such an encoding is rejected with an error, not a panic.",
 ["inputs"], "every pair of 64-bit times and every directory name",
 "The tests use one pair of times.",
 ["src/common/utils.rs"], [("name codec", "utils.rs: encode_chunk_dir, decode_chunk_dir")], ["encode_chunk_dir", "decode_chunk_dir"])
prop("D03", "Reopening a database brings back every chunk that was stored",
 "When a database directory is opened, every chunk directory in it that holds chunk metadata is reopened with both its storage and its index at the places where they were written, with its stored options and its original start time, closed for writing and ordered by start time; entries that are not chunks are ignored. A chunk that cannot be opened makes opening fail instead of losing its data silently, and a chunk directory left without metadata by a crash does not prevent opening.",
 ["histories", "crash_points", "inputs"], "every directory content, including unrelated files and half-created chunks",
 "No test reopens a database.",
 ["src/db.rs", "src/storage/sled_storage.rs", "src/indexer/sled_indexer.rs"], [("directory scan", "db.rs: read_existing_chunk"), ("paths used to build and to reopen", "Builder::build and Builder::read_from_chunk")],
 ["MonolithDb::query after reopening"])
prop("D04", "Chunk metadata is on disk, complete, before a chunk is used",
 "A chunk is put into service only after its metadata was written completely and without error, and the metadata written is exactly the chunk's start time, end time and identifier under the name that reopening reads. The metadata file never exists in a partially written form under its final name, so a crash at any moment leaves the database openable.",
 ["crash_points", "fault_sequences"], "every write failure and crash point while a chunk or database is created",
 "Tests write metadata once, without failure and without crash.",
 ["src/chunk/chunk.rs", "src/db.rs"], [("metadata write", "chunk.rs: write_config_to_dir"), ("creation order", "db.rs: new, swap")], ["metadata file", "Result of MonolithDb::new"])
prop("D05", "Components sharing the TiKV store never share or lose their key space",
 "Each chunk's index and storage get their own fresh identifier, recorded together under the chunk's key in fixed positions; registering one keeps the other's, and reopening the chunk yields the same identifier that was used when writing. A failing registration is reported and no component is built with an unregistered or empty identifier.",
 ["inputs", "histories", "fault_sequences"], "every order of registering index and storage, every backend failure",
 "Tests build components directly with a given identifier; registration is never executed.",
 ["src/backend/tikv.rs", "src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs"], [("identifier registration", "tikv.rs: init_component"), ("identifier recovery", "read_from_chunk of both TiKV builders"), ("key prefixing", "TiKvStorage, TiKvIndexer")], ["keys sent to the TiKV backend"])
prop("D06", "Chunk rotation opens the next window and keeps the old chunk readable",
 "A rotation puts a new chunk into service whose window starts at the given time and has the configured length, stored under its own directory with its own index and storage, and keeps the old chunk, closed, among the chunks that queries consult. If anything in preparing the new chunk fails, the current chunk stays in service unchanged and nothing is added to the older chunks.",
 ["fault_sequences", "histories"], "every rotation time and every failure while preparing the new chunk",
 "No test rotates a chunk.",
 ["src/db.rs"], [("rotation", "db.rs: swap"), ("initial chunk", "db.rs: new")], ["MonolithDb::query after rotation"])
# ---------------------------------------------------------------- concurrency
prop("K01", "Inserts into a chunk are isolated from each other and from queries",
 "Looking up or creating a series and storing the point is one indivisible step with respect to every other insert and every query of the same chunk, on every path and error exit; a query sees each insert entirely or not at all.",
 ["schedules"], "every interleaving of inserts, queries and closing on one chunk",
 "Tests use one chunk from one thread, or never overlap a query with an insert.",
 ["src/chunk/chunk.rs"], [("chunk lock held over insert and query", "chunk.rs: insert, query, close")], ["Chunk::insert", "Chunk::query"])
prop("K02", "Locks are always taken in one order",
 "The database never deadlocks: any two locks that are ever held together are always acquired in the same order by every operation, and no operation acquires a lock it already holds or waits for another thread while holding a lock that thread needs.",
 ["schedules"], "every interleaving of writes, queries and rotation",
 "A deadlock needs a particular interleaving of rotation with queries; tests never rotate.",
 ["src/db.rs", "src/chunk/chunk.rs"], [("lock acquisition order", "db.rs: query, swap, write_time_points; chunk.rs")], ["liveness of the API"])
prop("K03", "A query or write never falls between two chunks during rotation",
 "A query that runs while the current chunk is being rotated sees the points of the old chunk exactly once, never twice and never not at all; a write that was admitted to the current chunk is visible to every later query. No moment exists in which the outgoing chunk is both current and old, or neither, for a query.",
 ["schedules"], "every interleaving of rotation with queries and writes",
 "No test rotates a chunk, let alone concurrently with a query.",
 ["src/db.rs"], [("locks held while the current chunk moves to the older ones", "db.rs: swap, query, write_time_points")], ["MonolithDb::query"])
# ---------------------------------------------------------------- values
prop("E01", "Label and label set equality is a lawful equality consistent with hashing",
 "Two labels are equal exactly when both name and value are equal, and two label sets are equal exactly when they have the same number of labels and equal labels position by position; comparing never panics. Equal label sets hash equally, and label order follows the name only as a sort key.",
 ["inputs"], "every pair of labels and label sets of any lengths",
 "No test compares label sets.",
 ["src/common/label.rs"], [("equality, hash and order", "label.rs: impls for Label and Labels")], ["results of ==, hash, sort"])
prop("E02", "Time points are ordered by time and equal only when time and value agree",
 "Time points are ordered by timestamp alone, and two time points are equal only if their timestamps are equal and their values differ by less than the fixed tolerance, in both directions. Equality is symmetric.",
 ["inputs"], "every pair of time points",
 "Tests compare points that are identical.",
 ["src/common/time_point.rs"], [("comparison impls", "time_point.rs: PartialEq, Ord")], ["results of ==, cmp"])
# ---------------------------------------------------------------- compaction
prop("G01", "Compressed timestamps: writer and reader agree on every prefix and width",
 "For every kind of timestamp step, the marker the compressor writes and the number of payload bits it appends are exactly what the decompressor recognises and consumes for that marker, the payload range test admits only values that survive that width, and both sides update their previous timestamp and step alike. The first and second points use the same fixed layout on both sides.",
 ["inputs"], "every timestamp sequence", "Tests compress six fixed sequences.",
 ["src/compaction/gorilla.rs"], [("encoder branches", "gorilla.rs: GorillaCompactor::compact"), ("decoder branches", "gorilla.rs: GorillaDecompactor::next")], ["decompact(compact(x))"])
prop("G02", "Compressed values: writer and reader agree on every marker and field width",
 "For every pair of consecutive values, the marker, the leading-zero count, the length field and the payload the compressor writes fit their field widths and are read back by the decompressor with the same widths and the same meaning, and both sides keep the same record of the previous value and bit window.",
 ["inputs"], "every value sequence", "Tests compress six fixed sequences, none with more than 31 leading zeros or 64 significant bits.",
 ["src/compaction/gorilla.rs"], [("value encoder", "gorilla.rs: compact_value"), ("value decoder", "gorilla.rs: decompact_values")], ["decompact(compact(x))"])
prop("G03", "The bit stream keeps every appended bit, in order",
 "Appending bits, bytes or another stream to a bit stream makes its content the previous bits followed by exactly the appended bits, for every fill level of the last byte, and its recorded length is exact; serialising and deserialising a stream preserves it.",
 ["inputs"], "every fill level and length of both streams", "Tests append four fixed pairs of streams.",
 ["src/compaction/mod.rs"], [("append and bit accounting", "compaction/mod.rs: Bstream")], ["Bstream content"])
prop("G04", "Uncompressed data round-trips and type tags are enforced",
 "Data written by the uncompressed codec reads back as exactly the same points in the same order, whether points were added one at a time or as a list. Every serialised form ends with the tag of its own codec, and reading it with another codec's type is refused with a mismatch error.",
 ["inputs"], "every list of points and every pair of codecs", "Tests check one mismatched tag and never decompress uncompressed data.",
 ["src/compaction/mod.rs"], [("codec dispatch and tags", "compaction/mod.rs: Compactor, Decompactor")], ["Decompactor::decompact"])
# ---------------------------------------------------------------- write-ahead log
prop("L01", "A log entry's bytes carry its sequence number, type, length, data, checksum",
 "The serialised form of a log entry is its sequence number, its type, the length of its data, the data and the checksum of the data, in that order and at fixed widths, and the size it reports is the number of bytes it serialises to. Pushing data appends it and keeps the checksum equal to that of all data pushed.",
 ["inputs"], "every entry content", "Tests serialise one entry.",
 ["src/wal/mod.rs"], [("entry layout", "wal/mod.rs: Entry")], ["Entry::get_bytes"])
prop("L02", "Every log entry reaches the writer once, in order, under every flush policy",
 "Under every flush policy, each entry handed to a log segment is written to the underlying writer completely, exactly once and in order, in its serialised form: immediately for the immediate policy, when the count or size limit is reached for the others, and in any case when the segment is flushed or closed. Closing appends the checksum of everything written.",
 ["inputs", "configurations", "histories"], "every sequence of entries, flushes and close, for every policy and limit", "Tests write one entry under the immediate policy.",
 ["src/wal/segment.rs"], [("caching and flushing", "wal/segment.rs: Segment")], ["bytes handed to the writer"])
prop("L03", "A failed or short log write is reported",
 "If the underlying writer fails or accepts only part of the bytes while a segment is created, written, flushed or closed, the operation does not report success with bytes missing.",
 ["fault_sequences"], "every failing or partial write", "Tests never fail a write.",
 ["src/wal/segment.rs"], [("write error handling", "wal/segment.rs: Segment")], ["Result of Segment operations"])
# ---------------------------------------------------------------- options
prop("O01", "Command line options reach the setting they name, and bad ones are refused",
 "Each option's value is used for the setting it names, unparsable numbers and ports outside 1024..65535 (both ends allowed) are refused with an error, and the chunk size is taken in seconds. Defaults apply exactly where no option is given.",
 ["configurations", "inputs"], "every option value, in particular the port limits", "Tests run the default command line and one path.",
 ["src/common/option.rs", "src/bin/monolith-server.rs"], [("option parsing", "option.rs: get_config"), ("option declaration", "bin/monolith-server.rs")], ["effective configuration"])
prop("O02", "The server runs with exactly the storage and index backends requested",
 "For each of the four combinations of storage and index backend the server is started with exactly these two, the TiKV connection being the one configured; any other backend name ends the program with a failure status without touching data.",
 ["configurations"], "every combination of backend names", "Tests only start the default combination.",
 ["src/bin/monolith-server.rs"], [("dispatch", "bin/monolith-server.rs: main")], ["backend types constructed"])
# ---------------------------------------------------------------- out of reach of this family
prop("N01", "A crash loses no acknowledged sample",
 "Every sample of an acknowledged write request is returned by queries after the process is killed at any later moment and restarted.",
 ["crash_points", "histories"], "every crash point after an acknowledgement", "No test kills the process.",
 ["src/storage/sled_storage.rs", "src/wal/segment.rs"], [("sled background flush", "sled_storage.rs"), ("log not wired to the database", "wal/")], ["queries after restart"])
prop("N02", "Concurrent writes and queries are linearizable",
 "Every history of concurrent writes and queries is equivalent to a sequential one that respects real time.",
 ["schedules", "histories"], "every concurrent history", "Tests are sequential.",
 ["src/db.rs", "src/chunk/chunk.rs"], [("locks", "db.rs, chunk.rs")], ["histories"])
prop("N03", "Compression followed by decompression is the identity",
 "For every list of points, decompressing its compressed form gives back the same points bit for bit.",
 ["inputs"], "every list of points", "Tests compress six fixed sequences.",
 ["src/compaction/gorilla.rs", "src/compaction/mod.rs"], [("codec", "compaction/")], ["decompact(compact(x))"])
prop("N04", "Chunk windows adjoin: no timestamp falls between two chunks",
 "Consecutive chunk windows leave no gap, so that every sample with a current timestamp is admitted by some chunk at any time.",
 ["schedules", "histories"], "every timing of the rotation timer", "No test rotates a chunk.",
 ["src/db.rs"], [("rotation timer", "db.rs: new, swap")], ["samples refused around a rotation"])

os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
