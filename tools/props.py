"""Source of properties.jsonl (run tools/gen.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, level_note, state=(), observe=(), na=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier={"over": over, "text": text}, why_tests_cant=why,
             anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                      "state": [{"name": a, "meaning": m, "where": w} for a, m, w in state],
                      "observe_at": list(observe), "hook_needed": None},
             technique=technique, level_note=level_note)
    if na:
        d["na"] = na
    assert len(title) <= 80, title
    PROPS.append(d)


L = "lib/"
H = "lib/include/sse/schemes/"

P("C01", "The allocation graph's maximum flow is feasible and maximum",
  "For every directed multigraph with source and sink edges and any capacities, the computed flow gives every edge a flow between 0 and its capacity, conserves flow at every inner vertex, and has the maximum possible value. The reported graph flow, edge flows, capacities and per-vertex in/out flow and capacity all agree with the edges that were added. Flow queries before the computation, edges added after it, and out-of-range vertices are refused with an exception.",
  ["inputs"], "every graph (multi-edges, self loops, disconnected components, zero and huge capacities) that can be built through the public graph interface",
  "the tests check a dozen hand-made graphs and random graphs of one shape, and compare the sequential with the parallel result rather than with an independent maximum",
  [L + "tethys/tethys_graph.cpp", H + "tethys/details/tethys_graph.hpp"],
  [("augmenting-path search and residual update", "TethysGraph::compute_residual_maxflow, find_source_sink_path"), ("connected components", "TethysGraph::compute_connected_components")],
  "property-based testing: random multigraphs vs an independent Dinic reference and a min-cut certificate",
  "Random exploration of small and medium graphs with an independent max-flow oracle; no proof for sizes beyond those generated.",
  observe=["get_flow", "get_edge_flow", "get_vertex_in_flow", "get_vertex_out_flow"])

P("C02", "Parallel maximum flow equals the sequential one on every schedule",
  "Computing the flow of a graph with the thread-pool version, with any pool size and any interleaving of the workers, terminates and yields a feasible flow of the same maximum value as the sequential computation, component by component.",
  ["schedules", "inputs"], "every graph and every interleaving of the pool's workers",
  "the tests run the parallel version on a handful of graphs under whatever schedule the machine gives",
  [L + "tethys/tethys_graph.cpp", H + "utils/thread_pool.hpp"],
  [("one task per connected component", "TethysGraph::parallel_compute_residual_maxflow")],
  "property-based testing with randomised pool sizes, differential against the sequential computation and a Dinic reference",
  "Schedules are sampled (repeated runs, varied pool sizes, injected delays), not enumerated.")

P("C03", "Tethys allocation is valid and leaves the fewest elements in the stash",
  "After allocation, every inserted list has its elements split between its two candidate buckets and the stash, with no element lost or counted twice, and no bucket holds more than its capacity. The number of stashed elements is the minimum possible for the given candidate buckets, and the set of stashed lists is exactly the lists that are not fully placed in buckets. Invalid requests (reserved index, list longer than a bucket, inserting or allocating after allocation, reading the result before it) are refused with an exception and leave the allocation unaffected.",
  ["inputs", "histories"], "every table size, bucket capacity and multiset of (length, bucket pair) lists, and every sequence of allocator calls",
  "there is no test of the allocator's validity or optimality; the store tests use a few uniformly random databases that rarely overflow",
  [L + "tethys/tethys_allocator.cpp", H + "tethys/details/tethys_allocator.hpp", L + "tethys/tethys_graph.cpp"],
  [("overflow/underflow edges, max flow, truncation of overflowing buckets", "TethysAllocator::allocate"), ("table sizing", "tethys_graph_size")],
  "property-based testing: invariants plus optimality against an independent flow reference",
  "Random exploration biased to overfull and tied buckets; optimality is decided by an independent max-flow.")

P("C04", "A Tethys store returns exactly the lists it was built from",
  "For every set of distinct keys with lists no longer than the maximum, and every table geometry (overfull ones included), the built store returns for each key exactly the multiset of its values once bucket contents and stash are combined, and nothing for an absent key. Synchronous, asynchronous, direct-I/O and reopened-from-disk lookups all agree (any fixed-size key of at least 16 bytes and value type, with or without libaio; asynchronous lookups need 4096-byte pages). Lists that are too long, and inserting or building after a build, are refused with an exception.",
  ["inputs", "configurations"], "every database, key set, geometry, value type and encoder, read back through every lookup interface and after reopening",
  "the tests build one or two random databases of one geometry and look up the keys synchronously",
  [H + "tethys/tethys_store_builder.hpp", H + "tethys/tethys_store.hpp", H + "tethys/encoders/encode_separate.hpp", H + "tethys/encoders/encode_encrypt.hpp", L + "tethys/tethys_allocator.cpp"],
  [("bucket building and stash", "TethysStoreBuilder::build"), ("lookup", "TethysStore::get_list / async_get_list / get_buckets / decode_list")],
  "property-based testing: model-based round trip over generated databases and geometries",
  "The oracle is the generated map itself; stash-heavy geometries are generated deliberately.")

P("C05", "Tethys searches return exactly the indexed documents",
  "For every inverted index, searching any keyword on a Tethys deployment (client, server, encrypted table) returns exactly the documents indexed under it, however many blocks the keyword spans, and an unknown keyword returns nothing. This holds for indexes loaded from JSON, and after client and server are reopened from disk with the same master key.",
  ["inputs", "configurations"], "every inverted index, keyword and block count, plain and encrypted encodings",
  "one fixed-size random index is tested, and the existing tests need the cryptographic submodule, so they do not run here",
  [H + "tethys/tethys_builder.hpp", H + "tethys/tethys_client.hpp", H + "tethys/tethys_server.hpp", H + "tethys/encoders/encode_encrypt.hpp"],
  [("splitting a list in blocks and per-block tokens", "TethysBuilder::insert_list"), ("search request and decryption", "TethysClient")],
  "property-based testing: end-to-end model-based round trip with a stand-in crypto library",
  "The cryptographic submodule is absent from this sandbox: a functional stand-in (deterministic PRF, stream cipher) takes its place.")

P("C06", "The on-disk vector returns what was appended, at the right position",
  "For every history of appends, commit, asynchronous and batched reads, direct-I/O switching and reopening, reading position i returns the i-th appended page, sizes equal the number of appends, and reads past the end are refused. Appending to a committed vector, and asynchronous reading of an uncommitted one, are refused; a moved-from vector no longer touches the data of its successor, which behaves exactly as the original. Each asynchronous read calls back exactly once with the page of the requested position.",
  ["histories", "inputs"], "every operation history, page size and scheduler",
  "the tests append a few pages in a fixed order and read them back with one scheduler",
  [H + "abstractio/awonvm_vector.hpp", L + "abstractio/linux_aio_scheduler.cpp", L + "abstractio/thread_pool_aio_scheduler.cpp"],
  [("position allocation and page I/O", "awonvm_vector::push_back / async_push_back"), ("commit and reopen", "awonvm_vector::commit, constructor"), ("batched reads", "awonvm_vector::async_gets")],
  "stateful model-based property testing against a std::vector model",
  "Histories are generated, with both schedulers; operating-system faults are the subject of C07.")

P("C07", "Every submitted I/O completes exactly once, faults included",
  "For every sequence of read/write submissions (single, batched, from several threads) to either I/O scheduler, each accepted operation calls its callback exactly once, with its own user data and the result of the operation (bytes transferred or negative error), and each refused submission is reported to the caller and not called back. Waiting for completions, and destroying the scheduler, return only once every accepted operation has called back, and always return. This holds when the kernel answers 'try again', is interrupted by a signal, transfers short or fails an operation.",
  ["fault_sequences", "schedules"], "every submission sequence, thread interleaving and sequence of kernel answers",
  "the tests drive the schedulers through one happy-path use; queue-full, interrupted waits, partial submissions and errors never occur",
  [L + "abstractio/linux_aio_scheduler.cpp", L + "abstractio/thread_pool_aio_scheduler.cpp", L + "abstractio/scheduler.cpp", H + "abstractio/scheduler.hpp"],
  [("submission retry and completion counting", "LinuxAIOScheduler::submit_*, notify_loop, wait_completions"), ("worker completion", "ThreadPoolAIOScheduler")],
  "fault-injecting property testing (interposed io_submit/io_getevents/pread/pwrite) with generated submission histories",
  "Kernel answers are replaced by generated ones; thread schedules are perturbed, not enumerated.")

P("C08", "Persistent counters never lose, repeat or forget a value",
  "For every history of reads, increments, sets, removals, flushes and reopenings of a persistent counter store, each key's value is the one a plain map would hold: get-and-increment gives the values one after the other, a key that was never set or was removed starts from the same point, and failures to find are reported as such. Increments by several threads at once all take effect, and no two of them get the same value. Keys do not affect one another, whatever their bytes.",
  ["histories"], "every operation history over arbitrary byte-string keys, with reopenings",
  "the test covers a few increments of one store",
  [L + "utils/rocksdb_wrapper.cpp", H + "utils/rocksdb_wrapper.hpp"],
  [("counter encoding and read-modify-write", "RocksDBCounter")],
  "stateful model-based property testing against a map model, with reopening",
  "RocksDB itself is trusted.")

P("C09", "The key-value and list stores return the last value written",
  "For every history of puts, gets, removals, flushes and reopenings, the key-value wrapper and the list store return for each key exactly the last value or list written (order and multiplicity included), and report absence for a key never written or removed. Reading into a non-empty list replaces its content. Values survive closing and reopening.",
  ["histories", "inputs"], "every operation history over arbitrary keys, values and lists (empty and long ones included)",
  "the tests store a few random entries and read them back once",
  [L + "utils/rocksdb_wrapper.cpp", H + "utils/rocksdb_wrapper.hpp", H + "abstractio/kv_serializer.hpp"],
  [("key/value wrapper", "RockDBWrapper"), ("list store", "RockDBListStore"), ("serialisation", "serialization_details::serializer")],
  "stateful model-based property testing against a map model, with reopening",
  "RocksDB itself is trusted.")

P("C10", "Acknowledged updates survive a process crash",
  "When the process is killed at any point, a store reopened afterwards holds exactly the effect of a prefix of the issued operations that contains every acknowledged one (an update whose call returned is never lost, and nothing is invented). A vector whose commit returned before the kill reopens committed with all its pages; one killed before its commit shows at each position either the page appended there or blank reserved space, never another page.",
  ["crash_points"], "every kill point of every operation history",
  "no test kills a process",
  [L + "utils/rocksdb_wrapper.cpp", H + "abstractio/awonvm_vector.hpp"],
  [("flush", "RocksDBCounter::flush, RockDBWrapper::flush"), ("commit marker", "awonvm_vector::commit")],
  "crash-point property testing: forked writers killed at generated points, recovered state checked against the acknowledged prefix",
  "Process crashes only (kill -9), not power loss.")

P("C11", "Sophos searches return exactly the inserted documents",
  "For every history of insertions, searches and restarts, a Sophos search for a keyword returns each document inserted under it exactly as many times as it was inserted and nothing else, and an unknown keyword returns nothing. All search variants (list, callback, parallel, light) agree, for every number of worker threads. Client and server restored from their saved keys and stores continue exactly where they stopped.",
  ["histories", "configurations"], "every history, keyword, restart point and search variant",
  "the tests need the absent cryptographic submodule and use one fixed history",
  [L + "sophos/sophos_client.cpp", L + "sophos/sophos_server.cpp", H + "sophos/sophos_client.hpp", H + "sophos/sophos_server.hpp"],
  [("token chain", "SophosClient::insertion_request / search_request"), ("token walk", "SophosServer::search*")],
  "stateful model-based property testing with a stand-in crypto library",
  "A functional stand-in for the trapdoor permutation and PRF is used, as the submodule is absent.")

P("C12", "Diana searches return exactly the inserted documents",
  "For every history of insertions, bulk insertions, keyword removals, searches and restarts, a Diana search returns exactly the documents inserted under the keyword (with multiplicity), and nothing for an unknown or removed keyword; positions handed to positional callbacks and the order of parallel results follow insertion order. All search variants agree for every thread count. Search-and-delete returns the same results and leaves none behind. The match count reported by the client, and announced in its search requests, is the number of documents inserted since the keyword was last removed.",
  ["histories", "configurations"], "every history, keyword, restart point, thread count and search variant",
  "the tests need the absent cryptographic submodule and use one fixed history",
  [H + "diana/diana_client.hpp", H + "diana/diana_server.hpp", L + "diana/diana_common.cpp", H + "diana/types.hpp"],
  [("leaf indices and constrained keys", "DianaClient::insertion_request / search_request"), ("range evaluation", "DianaServer::search*")],
  "stateful model-based property testing with a stand-in crypto library",
  "A functional stand-in for the range-constrained PRF is used, as the submodule is absent.")

P("C13", "Janus searches return the inserted documents minus the deleted ones",
  "For every history of insertions, deletions, searches and restarts, a Janus search returns exactly the documents previously returned for the keyword and not deleted since, plus those inserted since the last search whose deletion was not also requested since that search (before or after the insertion), and nothing else. This holds for any number of deletions between searches, for sequential and parallel search, and whichever other keywords are used.",
  ["histories"], "every history of insertions, deletions and searches, across search epochs and restarts",
  "the tests need the absent cryptographic submodule and delete at most once per epoch",
  [L + "janus/janus_client.cpp", L + "janus/janus_server.cpp", H + "janus/janus_client.hpp", H + "janus/janus_server.hpp"],
  [("puncture numbering", "JanusClient::removal_request"), ("decryption and caching", "JanusServer::search*")],
  "stateful model-based property testing with a symbolic puncturable-encryption stand-in",
  "The stand-in keeps the telescoping algebra of the key shares symbolically.")

P("C14", "A cuckoo table returns exactly what was stored in it",
  "For every set of distinct keys (the all-ones key, which marks empty cells, excluded) and every table size of at least one cell, a built cuckoo table (and the Oceanus store on top of it) returns for each stored key exactly its value and reports absence for every other key, synchronously, asynchronously and after reopening; if the table cannot hold every element, the build reports it instead of silently dropping some. Inserting after a commit is refused, and committing again changes nothing.",
  ["inputs", "configurations"], "every key set (dense and colliding ones included), table size and page size",
  "the tests use one load factor with uniformly random keys and a single lookup style",
  [H + "oceanus/cuckoo.hpp", H + "oceanus/oceanus.hpp", H + "oceanus/details/cuckoo.hpp", L + "oceanus/cuckoo.cpp"],
  [("allocation by random walk and spilling", "CuckooAllocator::insert"), ("lookup in both tables", "CuckooHashTable::get / async_get")],
  "property-based testing: model-based round trip over generated key sets",
  "The hash split is driven by generated keys.")

P("C15", "Pluto searches return exactly the indexed documents",
  "For every inverted index, and with either back end for full blocks (cuckoo table or RocksDB), a Pluto search returns exactly the documents indexed under the keyword, with multiplicity and without fillers, for lists shorter than, equal to and spanning several blocks; an unknown keyword returns nothing. The number of full blocks stored, dummies included, depends on the announced number of documents only.",
  ["inputs", "configurations"], "every index, list length around block boundaries and back end",
  "the tests compare sets that already contain the spurious filler value, with one index",
  [H + "pluto/pluto_builder.hpp", H + "pluto/pluto_server.hpp", H + "pluto/pluto_client.hpp", H + "pluto/types.hpp", L + "pluto/rocksdb_store.cpp"],
  [("split in full and incomplete blocks", "PlutoBuilder::insert_list"), ("block walk", "PlutoServer::search")],
  "property-based testing: end-to-end model-based round trip with a stand-in crypto library",
  "Stand-in crypto, as the submodule is absent.")

P("C16", "The thread pool runs every accepted task exactly once",
  "For every pool size and history of enqueues from any threads, each accepted task runs exactly once and its future carries its value or exception; joining or destroying the pool returns only after all accepted tasks have finished, and always returns. Enqueueing after the pool was joined is refused, and no more tasks run at once than the pool has threads, while every thread of the pool is available to run tasks.",
  ["schedules", "histories"], "every pool size, task set and interleaving of enqueuers, workers and joiners",
  "the pool has no test of its own",
  [H + "utils/thread_pool.hpp"],
  [("task queue and stop flag", "ThreadPool::enqueue / join")],
  "stateful property testing with randomised scheduling",
  "Schedules are perturbed at random, not enumerated.")

P("C17", "Update tokens are fresh and independent of past searches",
  "Over every history of insertions, deletions and searches on Sophos, Diana and Janus clients (restarts included, Diana's keyword removal excluded), all update tokens, payload masks and masked payloads are distinct, a mask does not show in its token, clients with different keys share none, and no update token sent after a search is among the tokens that the server can derive from the search requests it has received before. Documents are never sent in the clear, and each keyword has a search token of its own that does not change.",
  ["histories"], "every history, over several keywords and restarts",
  "no test looks at the tokens",
  [L + "sophos/sophos_client.cpp", H + "diana/diana_client.hpp", L + "janus/janus_client.cpp"],
  [("per-keyword counters", "insertion_request"), ("constrained search keys", "search_request")],
  "stateful property testing of the client/server transcript",
  "Stand-in crypto: freshness of tokens is checked on values, computational security is out of reach.")

P("C18", "Encrypted Tethys pages decrypt to their content and nothing shows through",
  "For every page index and page content, decrypting an encrypted page with the same key and index gives back the content, the stored page shows none of the plaintext words or fillers, and equal pages at different indices or under different keys give unrelated ciphertexts.",
  ["inputs"], "every page content, index and key",
  "tested only through one end-to-end run of the absent submodule's tests",
  [H + "tethys/encoders/encode_encrypt.hpp"],
  [("per-page nonce", "EncryptEncoder / DecryptDecoder")],
  "property-based round-trip and metamorphic testing",
  "Stand-in stream cipher with the ChaCha20 interface.")

P("C19", "File-system and hexadecimal helpers do exactly what they say",
  "For every directory tree, path tests answer for what is really there (file or directory), directory creation creates one directory with the requested access, and recursive removal removes the whole named tree and nothing outside it, symbolic links' targets included, reporting success exactly when the tree is gone. Hexadecimal formatting gives two lower-case digits per byte, in order, for every byte string.",
  ["inputs"], "every tree shape (nested, hidden files, links, special names) and every byte string",
  "the tests use one tree of a few files and one string",
  [L + "utils/utils.cpp", H + "utils/utils.hpp"],
  [("recursive removal", "utility::remove_directory"), ("hex", "utility::hex_string")],
  "property-based testing over generated trees in a scratch directory, as an unprivileged user",
  "Race conditions with other processes are not explored.")

P("C20", "The database generator produces the distribution it promises",
  "For every number N of documents and every number of worker threads, exactly N documents are generated, and each one has exactly one entry in every sequential group (lists of 10 to 10^6), one in every percentile family for each of the two draws, and at most one in every random group. No keyword of a group exceeds the group's list size, and in sequential groups all lists are full but the last one of each worker. Keywords of different groups are different, and every random group that the database is large enough for is used (a worker has one group of s entries per 1.2 s documents of its share, a tenth fewer for s=100).",
  ["inputs", "schedules"], "every database size and number of worker threads",
  "one size is tested, and that test does not run here",
  [L + "utils/db_generator.cpp", H + "utils/db_generator.hpp"],
  [("thread split", "gen_db"), ("group keywords", "generation_job")],
  "property-based testing with counting invariants",
  "Databases of up to 25000 documents with every entry kept, and up to 9 million (full lists of every group) with totals and list sizes.")

P("C21", "Client and server runners give the same answers as the schemes",
  "For every history of remote updates, update sessions, bulk loads, searches and restarts, a Sophos or Diana client runner connected to a server runner obtains exactly the inserted documents; operations outside their protocol state are refused with an error and do not change the database, and updates sent while the server is down disturb no other. A search never returns a document that was not inserted, and during an update session returns at least the documents inserted before it. A bulk load reports whether it succeeded, and a failed one leaves the update session as it was. Reloading a client or server directory continues the same database, and an unusable one is refused.",
  ["histories", "configurations"], "every history of runner calls, synchronous and asynchronous search, restarts",
  "the runner tests need gRPC and do not run here",
  [L + "sophos/sophos_client_runner.cpp", L + "sophos/sophos_server_runner.cpp", L + "diana/client_runner.cpp", L + "diana/server_runner.cpp"],
  [("session state", "start_update_session / end_update_session"), ("server set-up", "setup rpc")],
  "stateful model-based property testing over an in-process RPC stand-in",
  "gRPC is replaced by an in-process stand-in.")

P("C24", "Malformed remote requests are refused and change nothing",
  "Whatever a client sends to a Sophos or Diana server, a request whose fields do not have their specified size, or whose wrapped token is forged, is answered with an error, does not touch memory out of bounds, returns no result and leaves the database exactly as it was. A setup request with an invalid key is refused and leaves the server not set up: every other request is refused until a valid setup.",
  ["inputs", "histories"], "every request with one invalid field, anywhere in a history of valid calls",
  "the runner tests need gRPC, do not run here, and only send well-formed messages",
  [L + "sophos/sophos_server_runner.cpp", L + "diana/server_runner.cpp"],
  [("decoding of the messages", "message_to_request"), ("set-up", "DianaImpl::setup, SophosImpl::setup")],
  "fuzzing of the decoded messages inside stateful model-based histories, under AddressSanitizer, over an in-process RPC stand-in",
  "gRPC is replaced by an in-process stand-in: the wire decoding of protobuf itself is trusted.")

P("C22", "Concurrent insertions and searches lose and invent nothing",
  "When several threads insert (on distinct or the same keywords; for Janus, whose searches change the client's state, one thread at a time per keyword) and search at the same time on Sophos, Diana and Janus, every insertion that returned is found exactly once by later searches, no search returns a document that was not inserted, and every search returns at least the documents whose insertion finished before it started.",
  ["schedules"], "every interleaving of concurrent inserts and searches",
  "no test runs client operations concurrently except bulk loads over distinct keywords",
  [L + "sophos/sophos_client.cpp", H + "diana/diana_client.hpp", L + "utils/rocksdb_wrapper.cpp"],
  [("counter increments", "RocksDBCounter::get_and_increment")],
  "schedule-randomised property testing",
  "Schedules are sampled.")

P("C23", "Generic containers and serialisers are faithful",
  "For every pair of containers (empty ones included), iterating over their concatenation visits the elements of the first then the second, in order, exactly once, and iterator comparison is consistent with that order. For every supported value type, deserialising a serialised value gives the value back and the serialised length is the announced one.",
  ["inputs"], "every pair of containers and every value",
  "neither has a test with empty containers",
  [H + "utils/concat_iterator.hpp", H + "abstractio/kv_serializer.hpp"],
  [("iterator hand-over", "ConcatIterator"), ("serialisers", "kv_serializer")],
  "property-based testing against the plain sequence",
  "Element types used by the library.")

P("C25", "Benchmark records and log messages are faithful",
  "Every benchmark leaves exactly one record, in the benchmark file that is current when it ends, with its message, its count of items, the time between its creation and its stop (its destruction when it was never stopped), and that time divided by the count. The benchmark file, the logger (the null one included) and the level may be chosen any number of times; a message of sufficient level reaches exactly the logger chosen last, with its text unchanged.",
  ["inputs", "histories"], "every sequence of benchmarks, loggers, levels and files",
  "no test looks at the records or at the log, and none chooses a logger twice",
  [L + "utils/logger.cpp", H + "utils/logger.hpp"],
  [("records", "Benchmark::stop, ~Benchmark"), ("loggers", "set_logger, set_logging_level, set_benchmark_file")],
  "stateful model-based testing: every record is read back and compared with measured bounds on its duration",
  "Times are bounded by clock readings around the calls, so a delay inside a call is not seen.")
