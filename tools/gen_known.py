#!/usr/bin/env python3
"""Writes /verif/known_findings.json: defects repaired in /repo (nothing is left as a known finding)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
C07 888e113 an interrupted io_getevents is counted as -1 completed queries: wait_completions never returns
C07 93db6a1 a submission refused with EAGAIN waits for a completion that may already have been notified, or never come
C07 4d7fc9d a batch whose submission fails midway is reported as entirely refused although its first reads call back
C07 3618255 wait_completions returns while the last task still uses the scheduler (use after free)
C07 d310208 two schedulers created at once create two shared pools
C06 d614f6b push_back after async_push_back, or after a switch of access mode, writes at another position than the one returned
C06 5d62834 a moved vector has size 0 and is uncommitted, and its file descriptor is closed twice
C06 0b3247a async_push_back on a committed vector overwrites it
C06 23d7554 reading position size() is accepted
C06 4e96df4 set_use_direct_access on a vector without scheduler dereferences a null pointer
C06 0186f77 the reserved but unused positions become elements of the reopened vector
C06 4f68ce1 a refused batch of reads frees the buffers of the reads in flight
C19 af90772 remove_directory reports success on a dangling link that it does not remove
C19 3d4b97c hex_string of an array of wide integers truncates its elements to a byte
C23 2f0f5b8 iterating over the concatenation of an empty container and another one dereferences the end of the empty one
C04 f793be3 an empty list ends the bucket in which it is encoded: the lists encoded after it are lost
C05 f793be3 (as above) documents of other keywords are lost when a keyword's last block is empty
C04 9984fc0 decoding a full page reads past its end
C14 cda003a a moved-from cuckoo builder commits an empty table over the file of its successor
C15 cda003a (as above) the full blocks of a Pluto database are lost when its builder is moved
C14 d2a54a0 elements that a cuckoo table cannot hold are silently dropped
C15 0fdee9a the padding of the full blocks is returned as documents
C15 d76ab66 the RocksDB back end of Pluto cannot be read: RocksDB cuckoo tables need mmap reads
C12 0fa14c3 get_match_count is one less than the number of documents
C13 0fa14c3 (as above, through Janus' insertion client)
C11 1edb65e parallel Sophos searches abort on the request of an unknown keyword
C22 1be1bd7 concurrent increments of a counter get the same value: one of two insertions is lost
C20 11f980b the random groups of 100 entries are generated under the keywords of those of 1000
C20 e88b55a the random groups after the 65536th are never used
C21 f050750 an insertion refused for want of an update session moves the keyword's counter
C21 f2724b4 a failed load of an inverted index leaves its update session open
C21 1421df2 the synchronous search of the Diana server returns documents that were never inserted
C24 8e7e8f2 a refused setup leaves a server that answers requests, and crashes on searches
C24 8597003 fields of the wrong size are copied out of bounds
C04 61f7ae5 lists of values wider than a length, or with keys of another size than 16 bytes, are cut or lost
C04 1c9b7ab the two bucket reads of an asynchronous lookup can complete at once: the callback runs twice or with half of the list
C25 f996111 the null logger can be selected only once: the second time throws
C25 83df0c8 the benchmark file can be set only once: the second time throws
C25 ab19f4a a stopped benchmark records the time until its destruction
C25 79cabc9 several threads that use the default logger for the first time at once abort the process
C20 79cabc9 (as above) the generation of a database aborts when it is the first to log
"""
out = []
for l in F.strip().splitlines():
    p, h, what = l.split(" ", 2)
    out.append({"property": p, "status": "fixed", "commit": h, "what": what,
                "entry": "fixed: property=%s %s %s" % (p, h, what)})
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
print(len(out))
