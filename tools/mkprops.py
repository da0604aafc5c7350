#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

T_SINGLE = "The suite runs one client, so no two lock holders ever coexist. "

prop("C01", "Database locks: a writer is alone, readers share only with readers",
 "From the moment a client's request for the write lock succeeds until it releases it, no other client holds the read or the write lock of that database. Readers may hold the lock together, but never while a writer holds it. This holds for every lock protocol the library can be built with, also when waiters time out, are interrupted by signals or wake up without cause.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of the memory accesses of any number of clients acquiring, timing out on and releasing read and write locks; every interruption, spurious or late wake-up; the three lock protocols",
 T_SINGLE + "Exclusion is a statement over all interleavings of single memory accesses and wake-ups.",
 ["Db/dblock.c", "Db/dblock.h"],
 [("reader-preference spinlock", "Db/dblock.c rpspin functions"), ("writer-preference spinlock", "Db/dblock.c wpspin functions"), ("task-fair queued lock", "Db/dblock.c tfqueue functions and lock-node pool")],
 [("lock area", "lock word / queue of waiting clients shared by all processes", "db_area_header locks in Db/dballoc.h")],
 ["wg_start_write", "wg_start_read", "wg_end_write", "wg_end_read"])

prop("C02", "Database locks: no lost wake-up, timeouts are clean, queueing is fair",
 "As long as every holder eventually releases its lock, every waiting client either gets the lock or fails with 0 once its timeout has passed, not noticeably earlier, and it never sleeps on after the lock has become available to it. A client that timed out leaves nothing behind: once all holders have released, any new request for either lock succeeds within a bounded time. Under the queued protocol no client that does not time out is overtaken by a conflicting request that queued later.",
 ["schedules", "fault_sequences", "configurations"],
 "every interleaving of acquire, timeout and release, with every interruption or early wake-up of a sleeping waiter, bounded holders, three protocols",
 T_SINGLE + "No test ever waits for a lock, so sleeping, waking and timing out are never executed.",
 ["Db/dblock.c", "Db/dblock.h"],
 [("sleep/wake protocol and timeout withdrawal", "Db/dblock.c tfqueue acquire/release, futex wrappers"), ("spin with back-off and deadline", "Db/dblock.c rpspin/wpspin")],
 [("wait queue", "clients waiting in arrival order", "Db/dblock.c lock_queue_node")],
 ["wg_start_write", "wg_start_read", "wg_end_write", "wg_end_read"])

prop("C03", "Locked transactions of concurrent processes are serializable",
 "When every client brackets its updates in the write lock and its reads in the read lock, the history is equivalent to running the transactions one after another in the order in which the locks were granted. In particular a reader never sees a half-made update, no committed update is lost, and every value read is the value last written by a preceding transaction. A client whose lock request failed has changed nothing.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the memory accesses of several processes running random transactions over one shared database, with lock timeouts and interruptions",
 "All tests are single-client; a torn or lost update needs a particular interleaving inside an operation.",
 ["Db/dblock.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dballoc.c", "Db/dbquery.c"],
 [("database lock", "Db/dblock.c"), ("record, string and index updates on shared memory", "Db/dbdata.c, Db/dbindex.c")],
 [("shared segment", "all records, values and indexes", "Db/dballoc.h db_memsegment_header")],
 ["wg_start_write/wg_start_read brackets", "wg_get_field", "wg_fetch", "wg_get_next_record"])

prop("C04", "Atomic field operations are linearizable without the write lock",
 "The atomic field operations (conditional replace, set, integer add) applied concurrently to the same field by any number of clients, which hold at most the read lock, take effect as if each happened at one instant between its call and its return. No increment is lost, a conditional replace succeeds exactly when the field held the expected value at that instant, and a refused operation (wrong type, a field an index depends on, active journal, bad field number) changes nothing.",
 ["schedules", "histories"],
 "every interleaving of the memory accesses of concurrent atomic operations and plain reads on the same fields",
 "The tests call each atomic operation from one client; lost updates need interleaving inside the operation.",
 ["Db/dbdata.c"],
 [("compare-and-swap on the field word", "Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field")],
 [("record field", "one encoded word in shared memory", "record data array")],
 ["wg_update_atomic_field", "wg_set_atomic_field", "wg_add_int_atomic_field", "wg_get_field"])

prop("C05", "Reading never changes the shared database",
 "A client that only reads (scans records, decodes values, runs queries, walks parents, prints, exports or dumps) leaves the logical and physical content of the database exactly as it was, apart from the lock itself (and, for a dump, the journal's own state, since a dump starts a new journal). Therefore readers that hold the read lock at the same time cannot disturb each other, and this also holds when a read operation fails half-way because memory ran out or a file could not be written.",
 ["schedules", "histories", "fault_sequences"],
 "every database reached by random histories, every read operation, every interleaving of concurrent readers, every point at which an allocation or file operation fails",
 "Tests look at what reads return, not at what they write; interference shows only with two readers at once or after a failed read.",
 ["Db/dbquery.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dbdump.c", "Db/dbutil.c", "Db/dbcompare.c"],
 [("read paths that keep their working state in private memory", "Db/dbquery.c, Db/dbmpool.c")],
 [("shared segment", "bytes other than the lock area", "Db/dballoc.h")],
 ["wg_make_query", "wg_fetch", "wg_find_record", "wg_dump", "wg_export_db_csv", "wg_print_db"])

prop("C06", "Attaching: one initialised database per name whatever the races and faults",
 "When several processes attach to, detach from or create the same named shared database concurrently, every successful attach yields the same, fully initialised database, and whatever one process stores is visible to the others. An attach that fails for any reason (segment being initialised, too small, wrong version, system call failure) returns failure, leaks neither memory nor an attachment, leaves an existing database untouched, leaves no unusable segment of its own behind and lets a later attach succeed. When the creating process crashes, later attaches never yield a half-initialised database. After the database has been deleted a new attach gives an empty database.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving of attach, create, detach and delete by several processes, every failing shared-memory system call, a crash of the creating process at any point of initialisation",
 "Tests attach once from one process with every system call succeeding.",
 ["Db/dbmem.c", "Db/dballoc.c"],
 [("create-or-link logic and the 'initialised' mark", "Db/dbmem.c wg_attach_memsegment, Db/dballoc.c wg_init_db_memsegment"), ("header compatibility check", "Db/dballoc.c wg_check_header_compat")],
 [("segment header", "magic mark, version, features, sizes", "Db/dballoc.h db_memsegment_header")],
 ["wg_attach_database", "wg_attach_existing_database", "wg_attach_logged_database", "wg_detach_database", "wg_delete_database"])

prop("C07", "Crash recovery: last dump plus journal gives back every acknowledged change",
 "With journaling active, after a crash of any or all client processes at any instant (data handed to the operating system survives, the shared segment does not), importing the latest dump (or starting from an empty database of the same size) and replaying the journal made since then gives a database in which every record, field value, reference and deletion acknowledged before the crash is present, and at most the one operation each client was executing is additionally present or not, as a whole. The recovered database behaves as any other: further changes, dumps, crashes and recoveries keep the guarantee, also when the replayed journal is followed by a new one.",
 ["crash_points", "histories", "schedules"],
 "every history of journaled operations by one or several clients, every crash instant between or inside operations, repeated crash/recover cycles",
 "The log test writes a handful of records once and replays the complete file; it never crashes inside an operation, never reuses storage of deleted records and never recovers twice.",
 ["Db/dblog.c", "Db/dbdump.c", "Db/dbdata.c"],
 [("write-ahead entries for create, delete, encode, set", "Db/dblog.c wg_log_* called from Db/dbdata.c"), ("replay with offset translation", "Db/dblog.c wg_replay_log, recover_journal")],
 [("journal file", "entries since the last dump", "<logdir>/wgdb.journal.<name>")],
 ["wg_replay_log", "wg_import_dump", "journal file contents"])

prop("C08", "A failed journal write fails the operation and nothing else",
 "When writing the journal fails or is cut short (error, full disk, interrupted call, a journal that cannot be opened), the operation that needed it reports failure and the database is logically as before it, or the write is completed and the operation succeeds. Every operation acknowledged afterwards, while journaling is still reported active, is recoverable just like the ones before the fault. The library never writes journal data anywhere but into the current journal file of that database.",
 ["fault_sequences", "histories"],
 "every history with a failing, short or interrupted open, write or close of the journal at any point, including several in a row and recovery of the disk",
 "No test makes a journal write fail.",
 ["Db/dblog.c", "Db/dbdata.c"],
 [("journal buffer writer and its error path", "Db/dblog.c write_log_buffer, check_journal"), ("callers that turn a journal error into a failed operation", "Db/dbdata.c")],
 [("journal handle", "per-process descriptor and serial of the journal it belongs to", "Db/dblog.h db_handle_logdata")],
 ["return values of wg_create_record, wg_set_field, wg_encode_*, wg_delete_record", "journal file contents"])

prop("C09", "Journal rotation keeps old journals and all clients follow the current one",
 "Activating the journal or dumping starts a new, valid, initially empty journal (after a stop, activating may instead continue the current journal while it still holds changes of this database that no dump contains); the previous one is kept under the next free backup name, at most ten backups exist and only when all ten names are taken is the oldest one replaced. From then on every attached process writes its changes to the new journal and none to a backup; after journaling has been stopped nobody's changes are written to any journal until it is started again. Return codes and the active state tell the truth: starting twice is refused, and a failed start leaves journaling inactive.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of start, stop, dump, import, replay and ordinary updates by several processes sharing a database, with failing rename, open, stat and write calls",
 "Tests have one process and start the journal once or twice with no failing system call.",
 ["Db/dblog.c", "Db/dbdump.c"],
 [("serial number comparison before each write", "Db/dblog.c check_journal / get_journal_fd"), ("backup naming and rename", "Db/dblog.c backup_journal, open_journal")],
 [("logging area", "active, dirty and serial shared by all clients", "Db/dblog.h db_logging_area_header")],
 ["wg_start_logging", "wg_stop_logging", "wg_dump", "files in the journal directory"])

prop("C10", "A dump is a consistent, complete snapshot or an error",
 "When dumping reports success while other clients keep reading and writing, the file alone restores exactly the state the database had at one instant during the call between two transactions. When anything goes wrong (file cannot be created, short write, full disk, failing flush or close, lock not obtained) the dump does not report success, and as long as the dump was given a file name of its own the data recoverable before the call is still recoverable after it.",
 ["schedules", "fault_sequences", "crash_points"],
 "every interleaving of a dump with transactions of other clients, every failing or short file operation inside the dump, a crash at any point of the dump",
 "Tests dump from the only client onto a disk that never fails.",
 ["Db/dbdump.c", "Db/dblog.c", "Db/dblock.c"],
 [("read lock around the copy, checksum in the header", "Db/dbdump.c wg_dump, wg_dump_internal"), ("journal restart after a successful dump", "Db/dbdump.c, Db/dblog.c wg_activate_logging")],
 [("dump file", "copy of the used part of the segment plus checksum", "file given to wg_dump")],
 ["wg_dump", "wg_import_dump of the produced file"])

prop("C11", "Import restores exactly what was dumped, or refuses and changes nothing",
 "Importing an undamaged dump makes the database content equal to the content at the time of the dump and leaves a database that works like any other, under the identity of the importing database. A file that is truncated, whose header was produced by an incompatible build or is damaged, or that is too large for the segment is refused by the import; damage of any byte is reported by wg_check_dump; and an import that reports the non-fatal error has left the database unchanged. A read error or short read while importing is never reported as success.",
 ["fault_sequences", "inputs", "crash_points"],
 "every dump file of a random history, every truncation, torn write or damaged byte range of it, every failing or short read during checking or importing",
 "Tests import one intact dump they have just made.",
 ["Db/dbdump.c", "Db/dballoc.c"],
 [("header and checksum verification before the copy", "Db/dbdump.c wg_check_dump, wg_import_dump"), ("compatibility check", "Db/dballoc.c wg_check_header_compat")],
 [("dump header", "magic, version, features, size, checksum", "Db/dballoc.h db_memsegment_header")],
 ["wg_import_dump", "wg_check_dump"])

prop("C12", "Replaying a damaged journal is detected and never corrupts or crashes",
 "Replaying a journal that was truncated or torn at its end, holds an impossible entry (unknown command, a record or length that cannot exist) or cannot be read never crashes, hangs, leaks or reads outside the database, and success is never reported when an entry could not be read or applied. A file that is not a journal, or of another version, is refused with the database unchanged. A journal cut off at any byte restores exactly the operations whose entries are wholly before the cut, and a failure stops exactly before the entry that could not be applied.",
 ["fault_sequences", "inputs", "crash_points"],
 "every journal of a random history, every cut position, impossible entries at every entry boundary, and every failing read, open or allocation during the replay",
 "Tests only replay intact journals.",
 ["Db/dblog.c"],
 [("entry parser", "Db/dblog.c recover_* / fget_varint"), ("header check and preparation", "Db/dblog.c wg_replay_log")],
 [("journal file", "sequence of variable length entries", "Db/dblog.h")],
 ["wg_replay_log", "content of the database afterwards"])

prop("C13", "Running out of space fails cleanly: error reported, nothing half done",
 "When the segment is full, cannot grow, or a private memory allocation fails, the operation that needed the space reports an error. After the error every record, value, reference and index entry that existed before is intact and unchanged, no half-made object is visible, and scans, queries and updates go on working; once space is freed the same operation succeeds.",
 ["fault_sequences", "histories"],
 "every history over databases of every small size, with every allocation of every operation failing in turn, inside the segment or in private memory",
 "Tests use databases that never fill up and allocators that never fail.",
 ["Db/dballoc.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dbhash.c", "Db/dbquery.c", "Db/dbmpool.c"],
 [("checks of every allocation result and roll-back", "Db/dbdata.c, Db/dbindex.c, Db/dbhash.c"), ("segment growth by subareas", "Db/dballoc.c extend_fixedlen_area, extend_varlen_area")],
 [("free lists and subareas", "what is left to allocate", "Db/dballoc.h db_area_header")],
 ["return values of every allocating operation", "content of the database afterwards"])

prop("C14", "Storage is neither shared nor lost: live objects intact, freed space reusable",
 "Whatever sequence of creations, updates and deletions by whichever clients, including failed ones, the storage of a live record, value or index node never overlaps that of another live object or of free space, and every byte of every data area is either in use or available for reuse. Space of deleted objects is reused: a workload whose live data stays bounded runs forever in a database of bounded size.",
 ["histories", "fault_sequences"],
 "every history of allocations and frees of all object kinds and sizes by several clients, interleaved with failed allocations and crash recovery",
 "Leaks and overlaps need long, specific sequences of sizes and failures; tests make a few fixed sequences.",
 ["Db/dballoc.c", "Db/dbdata.c", "Db/dbhash.c", "Db/dbindex.c"],
 [("variable-length allocator with buckets, splitting and merging", "Db/dballoc.c wg_alloc_gints, wg_free_object"), ("fixed-length free lists", "Db/dballoc.c wg_alloc_fixlen_object, wg_free_fixlen_object")],
 [("area headers, free buckets, designated victim", "allocation state", "Db/dballoc.h db_area_header")],
 ["object walk over the data areas", "wg_database_freesize", "ability to continue a bounded workload"])

prop("C15", "Every index always holds exactly the matching records, in order",
 "After every operation of any client, successful or failed, each tree or hash index, with or without template, on one or several columns, contains each record that has the indexed columns and matches its template exactly once and nothing else, and tree indexes yield them in value order. An index creation that reports success covers all existing records; one that fails leaves no trace; dropping an index affects no other.",
 ["histories", "fault_sequences", "schedules"],
 "every history of record creation, update, deletion, index creation and dropping by several clients, with allocation and journal failures at every point",
 "Index tests use fixed data orders and no failures; rebalancing and roll-back bugs need particular sequences.",
 ["Db/dbindex.c", "Db/dbhash.c", "Db/dbdata.c"],
 [("T-tree insert/delete/rotate with chained nodes", "Db/dbindex.c ttree_add_row, ttree_remove_row"), ("hash index", "Db/dbhash.c, Db/dbindex.c hash_*"), ("index maintenance on field writes", "Db/dbindex.c wg_index_add_field etc. from Db/dbdata.c")],
 [("index headers and column lists", "which indexes cover a column", "Db/dballoc.h db_index_area_header")],
 ["walk of each index", "index based wg_make_query and wg_find_record results"])

prop("C16", "Queries return exactly the matching records",
 "A query (by conditions, match record, or JSON-style arguments) returns each record that satisfies all its conditions exactly once and no other, with or without indexes, whichever index the planner picks, with correct result counts and row limits. A query that cannot be completed because memory runs out reports failure instead of an incomplete result, and leaks nothing.",
 ["histories", "fault_sequences", "schedules"],
 "every database reached by histories of concurrent clients and failed operations, random conditions and limits, allocation failures at every point of preparing and fetching a query",
 "Query tests use a few fixed tables; correctness depends on data/condition/index combinations and on failure points inside the query.",
 ["Db/dbquery.c", "Db/dbindex.c", "Db/dbcompare.c", "Db/dbmpool.c"],
 [("index choice and range search", "Db/dbquery.c find_ttree_bounds, internal_build_query"), ("row check", "Db/dbquery.c check_arglist"), ("prefetch into private pool", "Db/dbquery.c, Db/dbmpool.c")],
 [("query object", "position or prefetched result pages", "Db/dbapi.h wg_query")],
 ["wg_make_query", "wg_make_query_rc", "wg_fetch", "wg_find_record"])

prop("C17", "Stored values read back unchanged for as long as something refers to them",
 "Every value stored in a field decodes to the same type and content, with its language, type or namespace part, until that field is overwritten or its record deleted, whatever other clients store, share or delete meanwhile. Equal strings may share storage, but removing one use never disturbs another, and when the last use has gone the storage is released.",
 ["histories", "schedules", "fault_sequences"],
 "every history of encoding, storing, overwriting, deleting values of all types and lengths by several clients, with failed operations in between",
 "Premature release or leaked references of shared strings only show after particular sequences of sharing and failed or repeated deletion.",
 ["Db/dbdata.c", "Db/dbhash.c"],
 [("string interning with reference counts", "Db/dbdata.c find_create_longstr, Db/dbhash.c"), ("release on overwrite/delete", "Db/dbdata.c free_field_encoffset")],
 [("reference count of long strings", "number of uses", "string object header")],
 ["wg_decode_*", "wg_get_field_type", "allocator state after deletion"])

prop("C18", "References between records are tracked exactly; referenced records stay",
 "The parents reported for a record are exactly the records that hold a reference to it. Deleting a record that is still referenced is refused and changes nothing; after the last reference is gone it succeeds. Therefore a stored reference always leads to a live record, whatever operations succeeded, failed or were recovered in between.",
 ["histories", "fault_sequences", "crash_points"],
 "every history of record creation, linking, unlinking and deletion by several clients with allocation and journal failures and recoveries",
 "Tests build one small fixed graph; mismatches need failed or repeated updates of the same link.",
 ["Db/dbdata.c"],
 [("backlink lists", "Db/dbdata.c wg_set_field, wg_set_new_field, remove_backlink_index_entries, wg_delete_record")],
 [("backlink list of a record", "who refers to it", "record header")],
 ["wg_get_first_parent/wg_get_next_parent", "wg_delete_record", "wg_decode_record"])

prop("C19", "JSON documents are stored completely or refused, and deleted completely",
 "A JSON text accepted from a buffer or file, delivered in whatever pieces the file system returns, is stored so that the document structure and values read back, and printed, equal the text; a text nested deeper than the supported depth may be refused. A text that is malformed, cut off, or cannot be read to its end is never reported as stored. Deleting a document removes all its parts and nothing else.",
 ["inputs", "fault_sequences", "histories"],
 "every generated document, every cut position, chunk size and read error of the file, every allocation failure in WhiteDB's own code during parsing, followed by deletion",
 "Tests parse small literal strings from memory, fault free.",
 ["Db/dbjson.c", "Db/dbschema.c", "Db/dbquery.c", "json/yajl_all.c"],
 [("streaming parser callbacks", "Db/dbjson.c run_json_parser, push/pop/add_elem"), ("document deletion", "Db/dbschema.c wg_delete_document")],
 [("document records", "objects, arrays and key-value triples", "Db/dbschema.h")],
 ["wg_parse_json_file", "wg_parse_json_document", "wg_print_json_document", "wg_delete_document"])

prop("C20", "CSV import and export tell the truth about every row under stream faults",
 "Importing a CSV file stores every complete row with its values whatever chunks the file arrives in, always ends, and reports an error if the file could not be read to its end or a row could not be stored. Exporting and importing again gives the same rows for the value types CSV can carry. The outcome does not depend on what the process did before.",
 ["inputs", "fault_sequences", "histories"],
 "every table of random values, every chunking, read error and end-of-file position, and segment exhaustion at any row",
 "CSV functions have no tests with faulty streams.",
 ["Db/dbutil.c"],
 [("row reader and field parser", "Db/dbutil.c fread_csv, wg_import_db_csv, wg_parse_and_encode"), ("exporter", "Db/dbutil.c wg_export_db_csv")],
 [],
 ["wg_import_db_csv", "wg_export_db_csv"])

prop("C21", "References between databases stay valid in both directions",
 "A value or record of a registered parent database stored in a child database reads back as the parent's value for as long as the parent keeps it, and storing, overwriting or deleting it in the child never changes or frees anything in the parent. Values of databases that are not registered are refused. Operations of several clients on parent and child keep both databases consistent, also when they fail for lack of space.",
 ["histories", "fault_sequences", "schedules"],
 "every history of updates of a shared parent and of several children by different clients with exhaustion faults",
 "The child database test makes one fixed sequence with a single client.",
 ["Db/dbdata.c", "Db/dbmem.c", "Db/dbindex.c"],
 [("external database registry and pointer ownership", "Db/dbmem.c wg_register_external_db, Db/dbdata.c wg_encode_external_data, get_ptr_owner")],
 [("external database list", "base addresses the child may refer to", "Db/dballoc.h extdbs area")],
 ["wg_encode_external_data", "wg_register_external_db", "wg_get_field and decode functions on the child"])

prop("C22", "The server answers each request exactly once, whatever the network delivers",
 "Each well-formed request received completely by the network server is answered with exactly one complete, correctly framed response computed from that request alone, however its bytes are split, delayed or interleaved with other connections, and the connection is then closed. A request that cannot be served is answered with an error, not dropped silently.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of server threads and connections, every split of the byte stream, short and interrupted reads and writes, more connections than worker threads or queue slots",
 "The server has no tests.",
 ["Server/dserve_net.c", "Server/dserve.c", "Server/dserve_util.c"],
 [("task queue with worker threads", "Server/dserve_net.c run_server, handle_http"), ("request line/body reader and response writer", "Server/dserve_net.c readlineb, get_post_data, writen, write_header")],
 [("task queue", "accepted connections waiting for a worker", "Server/dserve.h common_data")],
 ["bytes on the client side of each connection"])

prop("C23", "The server survives hostile and broken clients and gives everything back",
 "Whatever a client sends or fails to send (malformed, over-long, truncated or stalled requests, resets at any byte), the server does not crash, does not touch memory it does not own, and goes on serving other clients. After a connection has ended its descriptor, memory and database lock are released, so that any number of bad requests does not exhaust the server or block the database.",
 ["inputs", "fault_sequences", "schedules"],
 "every byte stream with resets, stalls and errors at every position, allocation failures and lock timeouts inside request handling, any number of connections",
 "The server has no tests.",
 ["Server/dserve_net.c", "Server/dserve.c", "Server/dserve_util.c"],
 [("per-request buffers and error exits", "Server/dserve.c process_query and friends"), ("connection clean-up", "Server/dserve_net.c handle_http")],
 [("thread data", "per worker buffers, lock id and database handle", "Server/dserve.h thread_data")],
 ["open descriptors, live allocations and held locks of the simulated process"])

prop("C28", "The server gives right results, deletes exactly what is asked and obeys the access lists",
 "A search, count, delete, create or drop request, whether it comes over the network, through CGI or on the command line, has exactly the documented result on the database as it is at one moment during the request: the rows that satisfy all conditions, rendered as documented in JSON or CSV, the number of rows counted or deleted, and no other row gone. Requests and direct writers of the same database appear to happen one after another. A request whose address, token or database is not on the configured lists, or which is malformed or incomplete, is refused with an error and changes nothing.",
 ["inputs", "schedules", "histories"],
 "every query, rendering option, configuration file, address and token, every content of the database and every interleaving with other requests and direct writers",
 "The server has no tests.",
 ["Server/dserve.c", "Server/dserve_util.c", "Server/Manual.txt"],
 [("search, count, delete, create, drop", "Server/dserve.c search, create, drop"), ("authorization", "Server/dserve_util.c authorize, load_configuration"), ("rendering", "Server/dserve_util.c sprint_record, sprint_value, sprint_string")],
 [("configuration lists", "databases, addresses and tokens per access level", "Server/dserve.h dserve_conf")],
 ["responses, standard output of the program, database content"])

prop("C29", "The command line tool does exactly what it reports, also among other tools",
 "Any number of runs of the command line tool (create, free, add, del, query, select, createindex, createhash, dropindex, listindex, info, export, import, replay, exportcsv, importcsv, addjson, findjson) on shared databases behave as if the ones on the same database ran one after another in an order that respects which ended before another began. A run that reports success has had exactly its documented effect and printed exactly the matching rows, documents, indexes or facts; a run that fails says so and leaves the contents as they were; arguments that make no sense are refused with a message and change nothing. When all runs have ended no lock is left behind, and a database lost after that is rebuilt completely from its last exported copy and its journal with import and replay.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every command line and input, every interleaving of several tools and API clients of the same databases, failing system calls and allocations, tools killed at any moment, lock holders that stall",
 "The tool has no tests.",
 ["Main/wgdb.c", "Doc/Manual.txt"],
 [("command dispatch with attach, lock, work, unlock, detach", "Main/wgdb.c main"), ("query and delete", "Main/wgdb.c query, del, make_arglist"), ("adding a row", "Main/wgdb.c add_row"), ("JSON query", "Main/wgdb.c findjson, make_json_arglist"), ("facts and index list", "Main/wgdb.c segment_stats, print_indexes")],
 [("contents of a database", "rows, documents and indexes in the shared segment", "Db/dballoc.h db_memsegment_header")],
 ["standard output and standard error of each run, the files it writes, the contents of the databases"])

prop("C24", "Values compare in one consistent total order",
 "Comparing two values always gives the same answer, comparing them the other way round gives the opposite, and the order is transitive over values of all types.",
 ["inputs"], "every pair and triple of values",
 "Tests compare a handful of pairs.",
 ["Db/dbcompare.c"], [("comparison", "Db/dbcompare.c wg_compare")], [], ["wg_compare"])

prop("C25", "Dates and times follow the clock",
 "Whatever the system clock shows (years 1970 to 9999, before and after 2038, around midnight, the turn of a month or year, a leap day or a change of the local clock) and however it jumps, the current UTC or local date or time returned is the date or time, to a hundredth of a second rounded down, of a reading of the clock made during that call. Every such value can be stored, is read back the same by any process attached to the database and is found by a query for it; converted to ISO text, or to its fields, and back it gives the same value, and text and fields are those of the calendar.",
 ["inputs", "schedules", "histories"],
 "every moment and every time zone, every jump of the clock forwards or backwards at any point of any interleaving of processes and threads",
 "Tests run at one moment in one time zone on a steady clock, and only check that a current date and time can be printed.",
 ["Db/dbdata.c"],
 [("clock readings", "Db/dbdata.c wg_current_utcdate, wg_current_utctime, wg_current_localdate, wg_current_localtime"), ("conversion functions", "Db/dbdata.c wg_strf_iso_datetime, wg_strp_iso_date, wg_strp_iso_time, wg_ymd_to_date, wg_hms_to_time, wg_date_to_ymd, wg_time_to_hms, ymd_to_scalar, scalar_to_ymd")],
 [("stored date and time values", "immediate values in fields of records", "Db/dbdata.h WG_DATETYPE, WG_TIMETYPE encodings")],
 ["wg_current_utcdate", "wg_current_utctime", "wg_current_localdate", "wg_current_localtime", "wg_decode_date", "wg_decode_time", "wg_strp_iso_date", "wg_strp_iso_time", "wg_strf_iso_datetime"])

prop("C26", "The reasoner only derives consequences of its input clauses",
 "Every clause the reasoner derives follows from the clauses it was given, and a refutation is only reported for an unsatisfiable set.",
 ["inputs", "programs"], "every set of clauses and every strategy",
 "Tests run a few fixed problems.",
 ["Reasoner/clmain.c", "Reasoner/derive.c", "Reasoner/subsume.c", "Parser/dbparse.c"], [("resolution, subsumption and unification", "Reasoner/*.c")], [], ["result of a reasoner run"])

prop("C27", "The Python module keeps native resources alive exactly as long as needed",
 "Python record, database and query objects never refer to released native resources, and release them exactly once.",
 ["histories"], "every order of creating, using and dropping Python objects",
 "Python tests use few fixed orders.",
 ["Python/wgdbmodule.c", "Python/whitedb.py"], [("reference counting in the extension", "Python/wgdbmodule.c")], [], ["Python API"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
