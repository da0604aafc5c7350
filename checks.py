"""What each check runs."""
REAL = ["all of Db/*.c and json/yajl_all.c compiled from the working tree with every memory access visible to the simulator"]
STUB = ["file system, stdio, clock, sleep, futex, System V shared memory, malloc: simulated"]
ASSUME = ["memory is sequentially consistent between simulated clients; preemption is possible at every memory access of the compiled code (clang -O1)",
          "a clean batch is evidence over the sampled schedules and faults, not a proof"]
def P(variant, scen, weight=1, **opts): return dict(variant=variant, scen=scen, weight=weight, opts=opts)
def C(parts, rule, quick_s=40, thorough_s=600, real=REAL, stub=STUB, assumptions=ASSUME): return dict(parts=parts, rule=rule, quick_s=quick_s, thorough_s=thorough_s, real=real, stub=stub, assumptions=assumptions)
LOCKRULE = "a run draws clients, rounds, read/write mix, hold and pause times, preemption density and interruptions from its seed; non-trivial when at least one request had to wait for another client; distinct by the hash of its whole event log"
OPSRULE = "a run draws segment size, clients, transactions, operations, values, preemption density and allocation failures from its seed; non-trivial when more than 5 operations were executed and compared with the reference model; distinct by the hash of its whole event log"
RECRULE = "a run draws clients, transactions, operations, dumps, detaches, crash points (any memory access or any file operation, also during recovery), journal faults and preemptions from its seed; non-trivial when at least one crash happened before a recovery; distinct by the hash of its whole event log"
SRVREAL = ["Server/dserve.c, dserve_net.c and dserve_util.c, all of Db/*.c and json/yajl_all.c, compiled from the working tree with every memory access visible to the simulator"]
SRVSTUB = STUB + ["sockets, the network, pthreads (tasks of the simulator), environment, standard input and output: simulated"]
SRVASSUME = ASSUME + ["the plain http server (thread pool of any size, one thread per connection, or no threads at all), the command line and CGI are simulated, not https; insert and update are documented as missing and are not judged"]
SRVRULE = "a run draws databases, a configuration file, clients with their requests, the splitting, delaying, truncating and resetting of connections, reading speed, direct writers, failing and short system calls, failing allocations, spurious wake-ups and preemptions from its seed (or a sequence of command line and CGI invocations); the answers are explained by a search for an order of all requests and transactions; non-trivial when at least one request was answered; distinct by the hash of its whole event log"
CHECKS = {
 "C01": C([P("p3", "lock", 4, proto=3), P("p1", "lock", 2, proto=1), P("p2", "lock", 2, proto=2)], LOCKRULE),
 "C02": C([P("p3", "lock", 4, proto=3), P("p1", "lock", 2, proto=1), P("p2", "lock", 2, proto=2)], LOCKRULE),
 "C03": C([P("p3", "ops", 4, profile="serial"), P("p2", "ops", 2, profile="serial"), P("p1", "ops", 2, profile="serial")], OPSRULE),
 "C04": C([P("p3", "atomic", 3), P("p1", "atomic", 1)], "a run draws records, indexes, clients, their atomic operations and reads under the read lock, writers in between, and preemptions from its seed; every field's history is decided by a search for a linearization; non-trivial when at least one field had overlapping operations; distinct by the hash of its whole event log"),
 "C05": C([P("p3", "readonly", 3), P("p1", "readonly", 1), P("p3", "json", 1, property="C05")], "a run draws a database, its writers and readers, the read operations (scans, decodes, queries, parents, printing, exports, dumps), allocation and file faults inside them, and preemptions from its seed; every access of a reading task to the shared segment is watched and any changed byte outside the lock is a violation; non-trivial when at least one read operation was watched; distinct by the hash of its whole event log"),
 "C06": C([P("p3", "attach", 1)], "a run draws processes, their attach, create, detach and delete calls on two names and on local databases, failing system calls and allocations, incompatible headers, crashes inside an attach and preemptions from its seed; non-trivial when at least two attaches succeeded; distinct by the hash of its whole event log"),
 "C07": C([P("p3", "recover", 1)], RECRULE),
 "C08": C([P("p3", "recover", 1, jfaults=1)], RECRULE),
 "C09": C([P("p3", "rotate", 1)], "a run draws clients, their transactions, journal starts and stops, dumps, detaches, file faults and preemptions from its seed; the file layer records who wrote which bytes to which file; non-trivial when more than one journaled operation was executed; distinct by the hash of its whole event log"),
 "C10": C([P("p3", "dump", 1), P("p3", "recover", 1, dfaults=1)], "a run draws clients, transactions, concurrent dumps, file and allocation faults inside a dump, crash points and preemptions from its seed; non-trivial when a dump was compared with a state of the reference model; distinct by the hash of its whole event log"),
 "C11": C([P("p3", "import", 2), P("p3", "dump", 1)], "a run draws a history, a dump, and a cut, torn, damaged, foreign or unreadable variant of it from its seed; non-trivial when an import was decided against the reference model; distinct by the hash of its whole event log"),
 "C12": C([P("p3", "jdamage", 1)], "a run draws a journaled history and cuts, impossible entries, foreign files and read faults from its seed; non-trivial when the journal held more than 5 operations; distinct by the hash of its whole event log"),
 "C13": C([P("p3", "ops", 1, profile="space")], OPSRULE),
 "C14": C([P("p3", "ops", 1, profile="storage")], OPSRULE),
 "C15": C([P("p3", "ops", 3, profile="index"), P("p3", "json", 1, property="C15")], OPSRULE),
 "C16": C([P("p3", "ops", 3, profile="query"), P("p3", "json", 2, property="C16")], OPSRULE),
 "C17": C([P("p3", "ops", 1, profile="values")], OPSRULE),
 "C18": C([P("p3", "ops", 1, profile="refs")], OPSRULE),
 "C19": C([P("p3", "json", 1)], "a run draws documents, the way they are written and damaged, the path they take (buffer, fragment, parameter, file of any size), clients, read, open and allocation faults, deletions and preemptions from its seed; the oracle is an own strict JSON parser; non-trivial when more than two documents were parsed, printed or deleted; distinct by the hash of its whole event log", assumptions=ASSUME + ["allocation failures are injected into WhiteDB's own code, not inside the bundled JSON parser (yajl), which does not survive any"]),
 "C20": C([P("p3", "csv", 1)], "a run draws CSV files (field texts, quoting, line ends, rows of up to 45 fields), records of every type to export, clients, read, write, open and allocation faults, a shrinking segment and preemptions from its seed; exported files are compared with the records and imported into another database; the oracle is an own CSV parser and type detection; non-trivial when more than one import or export was compared; distinct by the hash of its whole event log"),
 "C21": C([P("p3", "childdb", 1)], "a run draws a shared parent, a local parent, an unregistered database and a child per client, the operations on all of them, allocation failures in the child and preemptions from its seed; while a child works, every byte of the shared parent and of the local parent is watched for changes; non-trivial when at least one external value was stored; distinct by the hash of its whole event log"),
 "C22": C([P("srv", "srv", 4), P("srvi", "srv", 1), P("srv", "srvcmd", 1)], SRVRULE, real=SRVREAL, stub=SRVSTUB, assumptions=SRVASSUME),
 "C23": C([P("srv", "srv", 4), P("srvi", "srv", 1), P("srv", "srvcmd", 1)], SRVRULE, real=SRVREAL, stub=SRVSTUB, assumptions=SRVASSUME),
 "C28": C([P("srv", "srv", 2), P("srvi", "srv", 1), P("srv", "srvcmd", 2)], SRVRULE, real=SRVREAL, stub=SRVSTUB, assumptions=SRVASSUME),
 "C25": C([P("p3", "clock", 1)], "a run draws the time zone (fixed offset, European or American rules), the number of processes or threads, what each reads, converts, stores and queries, and the jumps of the clock (special moments, turns of months, clock changes, just before midnight, anywhere in 1970-9999) and preemptions from its seed; every returned value must stand for a clock reading made during the call, by an independent calendar; non-trivial when the clock was read; distinct by the hash of its whole event log"),
 "C29": C([P("cli", "cli", 1)], "a run draws databases (with or without a journal), phases of up to three tools at a time with their commands, arguments and files, a lock holder, failing system calls and allocations, kills, stalls and preemptions from its seed; what each tool printed is explained by a search for one order of all commands ending in the observed contents; non-trivial when more than two commands ran; distinct by the hash of its whole event log", real=["Main/wgdb.c, all of Db/*.c and json/yajl_all.c, compiled from the working tree with every memory access visible to the simulator"], stub=STUB + ["standard input, output and error, user and group names: simulated"]),
}
