"""What is built and which binaries decide which property."""

REPO_UNITS = {
    "utils": ["utils/logger.cpp", "utils/utils.cpp"],
    "rocksdb": ["utils/rocksdb_wrapper.cpp"],
    "aio": ["abstractio/scheduler.cpp", "abstractio/linux_aio_scheduler.cpp",
            "abstractio/thread_pool_aio_scheduler.cpp"],
    "graph": ["tethys/tethys_graph.cpp"],
    "allocator": ["tethys/tethys_allocator.cpp"],
    "cuckoo": ["oceanus/cuckoo.cpp"],
    "pluto": ["pluto/rocksdb_store.cpp"],
    "diana": ["diana/diana_common.cpp"],
    "janus": ["janus/janus_client.cpp", "janus/janus_server.cpp"],
    "sophos": ["sophos/sophos_common.cpp", "sophos/sophos_client.cpp", "sophos/sophos_server.cpp"],
    "dbgen": ["utils/db_generator.cpp"],
    "runners": ["diana/client_runner.cpp", "diana/server_runner.cpp",
                "sophos/sophos_client_runner.cpp", "sophos/sophos_server_runner.cpp"],
}
LOG = ["-lspdlog", "-lfmt"]
CHAOS = ["-Wl,--wrap=" + x for x in (
    "pthread_mutex_lock", "pthread_mutex_unlock",
    "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
    "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")]
AIOWRAP = ["-Wl,--wrap=" + x for x in (
    "io_setup", "io_destroy", "io_submit", "io_getevents", "pread", "pwrite")]

BINARIES = {
    "graph": {"src": ["graph.cpp"], "units": ["utils", "graph"], "libs": LOG, "ldflags": CHAOS},
    "allocator": {"src": ["allocator.cpp"], "units": ["utils", "graph", "allocator"], "libs": LOG},
    "bench": {"src": ["bench.cpp"], "units": ["utils"], "libs": LOG},
    "threadpool": {"src": ["threadpool.cpp"], "ldflags": CHAOS},
    "threadpool_tsan": {"src": ["threadpool.cpp"], "ldflags": CHAOS, "variant": "tsan"},
    "aio": {"src": ["aio.cpp"], "units": ["utils", "aio"], "libs": LOG + ["-laio"],
            "ldflags": CHAOS + AIOWRAP},
    "aio_asan": {"src": ["aio.cpp"], "units": ["utils", "aio"], "libs": LOG + ["-laio"],
                 "ldflags": CHAOS + AIOWRAP, "variant": "asan"},
    "vec": {"src": ["vec.cpp"], "units": ["utils", "aio"], "libs": LOG + ["-laio"],
            "ldflags": CHAOS + AIOWRAP},
    "vec_asan": {"src": ["vec.cpp"], "units": ["utils", "aio"], "libs": LOG + ["-laio"],
                 "ldflags": CHAOS + AIOWRAP, "variant": "asan"},
    "rocks": {"src": ["rocks.cpp"], "units": ["utils", "rocksdb", "aio"],
              "libs": LOG + ["-lrocksdb", "-laio", "-ldl"], "ldflags": ["-rdynamic"]},
    "tethys": {"src": ["tethys.cpp"], "units": ["utils", "aio", "rocksdb", "graph", "allocator"],
               "libs": LOG + ["-lrocksdb", "-laio"], "ldflags": AIOWRAP},
    "tethys_asan": {"src": ["tethys.cpp"], "units": ["utils", "aio", "rocksdb", "graph", "allocator"],
                    "libs": LOG + ["-lrocksdb", "-laio"], "ldflags": AIOWRAP, "variant": "asan"},
    "tethys_noaio": {"src": ["tethys.cpp"], "units": ["utils", "aio", "rocksdb", "graph", "allocator"],
                     "libs": LOG + ["-lrocksdb", "-laio"], "ldflags": CHAOS + AIOWRAP, "noaio": True,
                     "cflags": ["-DTETHYS_NOAIO"]},
    "cuckoo": {"src": ["cuckoo.cpp"], "units": ["utils", "aio", "rocksdb", "graph", "allocator", "cuckoo", "pluto"],
               "libs": LOG + ["-lrocksdb", "-laio"], "ldflags": AIOWRAP},
    "schemes": {"src": ["schemes.cpp"], "units": ["utils", "rocksdb", "diana", "janus", "sophos"],
                "libs": LOG + ["-lrocksdb"], "ldflags": CHAOS},
    "schemes_asan": {"src": ["schemes.cpp"], "units": ["utils", "rocksdb", "diana", "janus", "sophos"],
                     "libs": LOG + ["-lrocksdb"], "ldflags": CHAOS, "variant": "asan"},
    "cuckoo_asan": {"src": ["cuckoo.cpp"],
                    "units": ["utils", "aio", "rocksdb", "graph", "allocator", "cuckoo", "pluto"],
                    "libs": LOG + ["-lrocksdb", "-laio"], "ldflags": AIOWRAP, "variant": "asan"},
    "dbgen_asan": {"src": ["dbgen.cpp"], "units": ["utils", "dbgen"], "libs": LOG,
                   "cflags": ["-include", "string"], "variant": "asan",
                   "ldflags": ["-Wl,--wrap=_ZNSt6thread20hardware_concurrencyEv",
                               "-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"]},
    "dbgen": {"src": ["dbgen.cpp"], "units": ["utils", "dbgen"], "libs": LOG,
              "cflags": ["-include", "string"],
              "ldflags": ["-Wl,--wrap=_ZNSt6thread20hardware_concurrencyEv",
                          "-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"]},
    "runners": {"src": ["runners.cpp"], "units": ["utils", "rocksdb", "diana", "sophos", "runners"],
                "libs": LOG + ["-lrocksdb", "-lprotobuf"], "ldflags": CHAOS, "protos": True},
    "runners_asan": {"src": ["runners.cpp"], "units": ["utils", "rocksdb", "diana", "sophos", "runners"],
                     "libs": LOG + ["-lrocksdb", "-lprotobuf"], "ldflags": CHAOS, "protos": True,
                     "variant": "asan"},
    "util": {"src": ["util.cpp"], "units": ["utils"], "libs": LOG},
}

CHECKS = {
    "C01": {"binaries": ["graph"], "level": "exploration"},
    "C02": {"binaries": ["graph"], "level": "exploration"},
    "C03": {"binaries": ["allocator"], "level": "exploration"},
    "C16": {"binaries": ["threadpool", "threadpool_tsan"], "level": "exploration"},
    "C07": {"binaries": ["aio", "aio_asan"], "level": "exploration"},
    "C08": {"binaries": ["rocks"], "level": "exploration"},
    "C09": {"binaries": ["rocks"], "level": "exploration"},
    "C10": {"binaries": ["rocks"], "level": "exploration"},
    "C19": {"binaries": ["util"], "level": "exploration"},
    "C23": {"binaries": ["util"], "level": "exploration"},
    "C04": {"binaries": ["tethys", "tethys_asan", "tethys_noaio"], "level": "exploration"},
    "C05": {"binaries": ["tethys"], "level": "exploration"},
    "C14": {"binaries": ["cuckoo", "cuckoo_asan"], "level": "exploration"},
    "C15": {"binaries": ["cuckoo", "cuckoo_asan"], "level": "exploration"},
    "C18": {"binaries": ["tethys"], "level": "exploration"},
    "C11": {"binaries": ["schemes", "schemes_asan"], "level": "exploration"},
    "C12": {"binaries": ["schemes", "schemes_asan"], "level": "exploration"},
    "C13": {"binaries": ["schemes", "schemes_asan"], "level": "exploration"},
    "C17": {"binaries": ["schemes"], "level": "exploration"},
    "C20": {"binaries": ["dbgen", "dbgen_asan"], "level": "exploration"},
    "C21": {"binaries": ["runners"], "level": "exploration"},
    "C24": {"binaries": ["runners_asan"], "level": "exploration"},
    "C25": {"binaries": ["bench"], "level": "exploration"},
    "C22": {"binaries": ["schemes", "schemes_asan"], "level": "exploration"},
    "C06": {"binaries": ["vec", "vec_asan"], "level": "exploration"},
}
