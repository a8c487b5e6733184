"""Which workloads decide which property."""
ASSUME = ["gcc/clang code generation and the sanitizer runtimes are trusted",
          "the reference model in /verif/src (model.hpp, world.hpp) states the documented behaviour"]
def R(src, mode, quick, thorough, cfg="main", san="asan", **kw):
    kw.setdefault("opts", {}).setdefault("cpu", "20")
    d = dict(src=src, mode=mode, cases=(quick, thorough), cfg=cfg, san=san); d.update(kw); return d

TECH = "runtime monitoring: seeded operation histories against a reference model with structural monitors, under ASan+UBSan"
NOTE = "Holds on every explored history; assurance is by volume and diversity of executions, each judged by an independent model or structural invariant. Trusts the sanitizer runtimes and the model."
NOT_YET = {}
PROPS = {}
def prop(pid, level, rule, runs, must=None, **kw):
    PROPS[pid] = dict(level=level, rule=rule, runs=runs, must=must or {}, assumptions=ASSUME + kw.pop("assumptions", []), **kw)

HIST = "Each case is one seeded random history of operations on a fresh database, mirrored in a reference model; "
prop("P01", "exploration", HIST + "non-trivial = a state between operations (distinct by history hash) in which every live record was read back and compared.",
     [R("hist", "rec", 1500, 30000), R("hist", "rec", 500, 10000, cfg="alt")], dict(records_compared=1000, field_writes=1000, deletes=100))
prop("P02", "exploration", HIST + "non-trivial = a state (distinct by history hash) at which a full scan was compared with the set of live records.",
     [R("hist", "rec", 1500, 30000), R("hist", "rec", 500, 5000, cfg="alt")], dict(scans=500))
prop("P03", "exploration", "Each case encodes some hundred values of all types (random and boundary), decodes each with every decoder and copies it into buffers of exact, larger and too small size watched byte by byte; non-trivial = a distinct value that went through all of that.",
     [R("codec", "vals", 1500, 15000, opts=dict(checked="1")), R("codec", "vals", 200, 4000, cfg="alt")], dict(copies=1000, copies_refused=100, range_refusals=50, query_params=100, decoded_type_7=10))
prop("P04", "exploration", HIST + "non-trivial = a state (distinct by block population) at which all storage areas were walked and compared with what live data reaches.",
     [R("hist", "mem", 1500, 20000), R("hist", "repeat", 120, 2000), R("hist", "mem", 400, 5000, cfg="alt")], dict(structure_walks=500))
prop("P05", "exploration", HIST + "non-trivial = a state (distinct by block population) at which all storage areas were walked block by block.",
     [R("hist", "mem", 1500, 20000), R("hist", "mem", 400, 5000, cfg="alt")], dict(structure_walks=500))
prop("P06", "exploration", HIST + "non-trivial = distinct state at which the parents of every record were enumerated and back-links compared with actual references.",
     [R("hist", "ref", 1500, 30000), R("hist", "ref", 400, 5000, cfg="alt")], dict(parent_lists=500))
prop("P07", "exploration", HIST + "non-trivial = a distinct tree shape whose nodes, order, heights and content were compared with the model.",
     [R("hist", "tt", 1500, 20000), R("hist", "ttbulk", 600, 10000), R("hist", "tt", 500, 5000, cfg="alt"), R("hist", "ttbulk", 200, 4000, cfg="alt")], dict(ttree_checks=500))
prop("P08", "exploration", HIST + "non-trivial = a distinct state at which every combination held by a live record, and absent combinations, were looked up.",
     [R("hist", "hash", 1500, 20000), R("hist", "hash", 300, 5000, cfg="alt"), R("hist", "rawidx", 1, 1, probe=True)], dict(hash_lookups=500))
prop("P09", "exploration", HIST + "non-trivial = a distinct query compared with evaluation of its conditions over the model.",
     [R("hist", "query", 2000, 30000), R("hist", "query", 500, 5000, cfg="alt")], dict(queries=500))
prop("P10", "exploration", HIST + "non-trivial = a distinct search stepped to its end and compared with the model.",
     [R("hist", "query", 2000, 30000), R("hist", "query", 500, 5000, cfg="alt")], dict(finds=500))
prop("P11", "exploration", "Each case compares all pairs and all triples of 20-60 values (boundary, near-equal and nested record values) with an independent order, and checks the six query conditions with and without an index against the same relation; non-trivial = a distinct ordered pair compared.",
     [R("codec", "order", 1500, 12000), R("codec", "order", 120, 3000, cfg="alt")], dict(pairs_compared=10000, triples_checked=100000, condition_queries=500))
prop("P27", "exploration", "Every day of the years 1 to 9999 and every second of a day is converted both ways, encoded and parsed and compared with an independent calendar; far years, printing and invalid dates, times and texts are sampled; non-trivial = a distinct month or invalid input.",
     [R("codec", "dates", 40, 400), R("codec", "dates", 10, 40, cfg="alt", opts=dict(slices="10"))], dict(dates_checked=3000000, times_checked=86400, invalid_refused=1000, datetimes_printed=1000))
prop("P12", "exploration", "Each case dumps the database of a random history (all types, references, indexes, documents, journal on or off), imports it into databases of other sizes and contents and runs every monitor on the result; original and copy then go on independently. Non-trivial = a distinct state that was dumped, imported and compared.",
     [R("dumplog", "dump", 700, 10000), R("dumplog", "dumpdocs", 300, 5000), R("dumplog", "dump", 150, 2000, cfg="alt")], dict(dumps=200, imports=200, imports_tight=50, imports_over_data=50, documents=100, queries=500))
prop("P13", "exploration", "Each case imports damaged, cut, extended, foreign and oversized dump files, or makes dumps fail at a chosen byte, and compares the whole segment with its image from before; non-trivial = a distinct damage or failure.",
     [R("dumplog", "failimport", 120, 2000), R("dumplog", "faildump", 500, 6000), R("dumplog", "faildump", 60, 1000, cfg="alt")], dict(imports_refused=5000, imports_too_large=20, dumps_refused=1000))
prop("P14", "exploration", "Each case journals a random history, replays it into databases of another layout (empty after other use, or restored from the dump), with other indexes, and compares the result record by record; the copy then goes on under all monitors. Non-trivial = a distinct final state that was replayed.",
     [R("dumplog", "replay", 900, 12000), R("dumplog", "replaydocs", 400, 6000), R("dumplog", "replay", 150, 3000, cfg="alt")], dict(replays=500, documents=100))
prop("P15", "exploration", "Journals are cut at chosen or all bytes, journal writes fail at a chosen byte, the writing process is killed, and files that are no journals are replayed; the recovered state is compared with the state after the last complete call. Non-trivial = a distinct cut, failure, crash or file.",
     [R("dumplog", "cut", 180, 3000), R("dumplog", "notjournal", 80, 600), R("dumplog", "jfail", 600, 8000), R("dumplog", "crash", 300, 5000), R("dumplog", "cut", 40, 500, cfg="alt")],
     dict(cuts=2000, cuts_inside_entry=200, replays_refused=1000, journal_failures=100, crashes=50))
prop("P16", "exploration", "Each case drives one logged shared database from several handles and processes through writes, dumps, imports, stops, starts and recoveries; after each step the journal file and all backups are compared byte by byte with what they must hold, and finished segments are replayed. Non-trivial = a distinct journal content checked.",
     [R("dumplog", "rotate", 250, 3000, opts=dict(shm="1")), R("dumplog", "rotate", 60, 500, cfg="alt", opts=dict(shm="1"))], dict(rotations=300, segments_replayed=200, writes_other_process=100, recoveries=20, restarts=100))
# dblock.c and dbdata.c are compiled with a callback before every memory access and basic block
CONC = dict(per_file={f: "-O1 -fno-inline -fsanitize-coverage=trace-pc-guard,edge,trace-loads,trace-stores" for f in ("dblock.c", "dbdata.c")},
            ldflags="-Wl,--wrap=syscall,--wrap=nanosleep,--wrap=clock_gettime,--wrap=usleep,--wrap=sched_yield")
def C(mode, quick, thorough, cfg="queue", **kw):
    o = dict(cpu="60", wall="120"); o.update(kw.pop("opts", {}))
    return R("conc", mode, quick, thorough, cfg=cfg, san="nonec", build=CONC, opts=o, **kw)
TECHC = "runtime monitoring: controlled scheduling (every memory access of the lock code a preemption point, virtual time, emulated futexes, injected spurious wakeups, signals and delays) with online monitors, plus real processes and threads with witness counters and injected delays"
SCHED = lambda q, t: [C("sched", q, t), C("sched", q // 6, t // 6, cfg="rpspin", opts=dict(schedules="8")), C("sched", q // 6, t // 6, cfg="wpspin", opts=dict(schedules="8"))]
PROCS = lambda q, t: [C("procs", q, t, cfg="main", opts=dict(shm="1"), chunk=4), C("procs", q // 2, t // 2, cfg="rpspin", opts=dict(shm="1"), chunk=4), C("procs", q // 2, t // 2, cfg="wpspin", opts=dict(shm="1"), chunk=4)]
NOTEC = "Holds on every explored schedule and run; schedules are sampled (random and priority-based preemption), not exhausted. The controlled scheduler interleaves sequentially consistently; the effects of the real memory model are only seen by the runs with real processes."
prop("P17", "exploration", "Each case runs dozens of controlled schedules of 2-6 threads taking read and write locks, the holders compared at every grant, or real processes and threads with shared witness counters and data that only writers change. Non-trivial = a distinct sequence of preemptions (controlled) or outcome (real).",
     SCHED(900, 12000) + PROCS(40, 800), dict(schedules=20000, write_locks=20000, read_locks=20000, shared_grants=2000, preemptions=100000, processes=50), technique=TECHC, note=NOTEC)
prop("P18", "exploration", "Each case runs dozens of controlled schedules on virtual time with long holds, timeouts, time jumps and spurious wakeups, or real processes. Judged: time to grant or failure, states where everyone sleeps, order of service, admission of readers, and that all lock cells are free at the end. Non-trivial = a distinct sequence of preemptions.",
     SCHED(900, 12000) + PROCS(24, 400), dict(schedules=20000, lock_timeouts=500, idle_states=20000, idle_with_readers=500, futex_timeouts=200, spurious_wakeups=1000), technique=TECHC, note=NOTEC)
prop("P19", "exploration", "Each case runs dozens of controlled schedules of 2-4 threads updating 1-2 fields, each history checked for linearizability; or real processes whose additions and compare-and-set wins are counted; or refusals compared with the documented codes and the memory image before. Non-trivial = a distinct sequence of preemptions, outcome or kind of refusal.",
     [C("atom", 1500, 20000), C("atom", 200, 3000, cfg="alt"), C("aprocs", 60, 1000, cfg="main", opts=dict(shm="1"), chunk=4), C("atomref", 40, 600, cfg="main"), C("atomref", 20, 200, cfg="alt")],
     dict(schedules=50000, histories_checked=50000, overlapping_pairs=50000, cas_won=1000, cas_lost=1000, refusals=1000, processes=100, indexed_by_reference=50), technique=TECHC, note=NOTEC)
prop("P20", "exploration", "Each case fills a small database with one kind of data until operations are refused, goes on with random operations on the full database under all monitors, deletes, and stores again; refused operations must leave everything as it was. Non-trivial = a distinct history of a full database.",
     [R("full", "full", 96, 1600), R("full", "full", 32, 600, opts=dict(indexes="1")), R("full", "full", 24, 400, cfg="alt")],
     dict(creates_refused=500, encodes_refused=500, writes_refused=20, reused=20, states_checked=1000, empty_checks=50))
prop("P21", "exploration", "Each case parses random documents written in random ways (escapes, UTF-8, comments, numbers; texts and files placed across the 16384-byte reading chunks) and compares what is stored and what is printed with an independent JSON reader; every nested record is asked for its document, documents are deleted and all storage must return. Non-trivial = a distinct set of documents.",
     [R("json", "jparse", 1500, 20000), R("json", "jparse", 300, 4000, cfg="alt"), R("json", "jparse", 300, 4000, san="ubsan"), R("json", "jbool", 4, 4, probe=True)],
     dict(documents_compared=5000, nested_records=100000, documents_printed=5000, documents_deleted=2000, files_parsed=500, chunk_boundaries=300, chunk_splits=300, empty_checks=500))
prop("P22", "exploration", "Each case gives 150 mutated, cut and random texts to the validity check, the file reader and the parser; an independent reader says which are valid, the segment is compared with its image before; the text buffers end exactly where the text does. Non-trivial = a distinct text judged.",
     [R("json", "jbad", 160, 3000), R("json", "jbad", 40, 600, cfg="alt"), R("json", "jbad", 80, 1000, san="ubsan")],
     dict(checks_refused=10000, checks_passed=1000, files_refused=10000, files_accepted=1000, texts_refused=10000))
prop("P23", "exploration", "Each case queries a changing set of documents over a small vocabulary (with fragments and plain records between them; no index, JSON hash index, key index or both) by 1-3 pairs, literal or container values, and compares the result with an evaluation over the documents; the segment is compared with its image before. Non-trivial = a distinct query and result.",
     [R("json", "jquery", 300, 5000), R("json", "jquery", 60, 1000, cfg="alt")],
     dict(json_queries=20000, json_rows=20000, json_large_results=200, json_empty_results=1000, queries_with_containers=2000, queries_with_many_pairs_matched=2000))
prop("P24", "exploration", "Each case parses hundreds of texts (numbers, dates, times and their neighbours, 1 to 9000 bytes, with stale errno) and compares them with an independent reading of the documentation; or exports a random database to CSV and compares what is imported into another; or imports hand-written files; or prints every value of a database into buffers of exact sizes. Non-trivial = a distinct text, value, file or printed value.",
     [R("text", "ptext", 600, 8000), R("text", "ptext", 100, 1000, cfg="alt"), R("text", "csv", 500, 8000), R("text", "csvfile", 250, 4000), R("text", "print", 250, 4000),
      R("text", "csv", 80, 1000, cfg="alt"), R("text", "print", 60, 1000, cfg="alt"), R("text", "ptext", 100, 1000, san="ubsan"), R("text", "csvfile", 60, 600, san="ubsan")],
     dict(texts_parsed=100000, texts_type_3=5000, texts_type_4=5000, texts_type_11=3000, texts_type_12=2000, csv_round_trips=300, csv_fields=30000, csv_files=2000, csv_last_line_open=300, csv_unclosed=100, prints_bounded=30000))
SHM = dict(per_file={f: "-fsanitize-coverage=trace-pc-guard,edge" for f in ("dbmem.c", "dballoc.c")}, ldflags="-Wl,--wrap=shmget,--wrap=shmat,--wrap=shmctl,--wrap=shmdt")
def S(mode, quick, thorough, **kw): return R("shm", mode, quick, thorough, build=SHM, opts=dict(shm="1", cpu="40", wall="300"), chunk=8, **kw)
prop("P26", "exploration", "names: a driver tells several processes to attach (all kinds and sizes), write, read, detach, delete, exit or die over four names, with foreign and incompatible segments in between; the contents seen through every handle, the number of attachments of every segment and where every name leads are compared with a model after each step. race: 2-6 processes attach a fresh name at once with delays injected in every edge of dbmem.c and dballoc.c and around shm calls; all that succeed must share one initialised database. churn: attach, use, detach and delete at once. Non-trivial = a distinct history prefix or race outcome.",
     [S("names", 240, 4000), S("names", 60, 1000, cfg="alt"), S("race", 80, 1500), S("race", 24, 300, cfg="alt"), S("churn", 60, 1000), S("churn", 16, 200, cfg="alt")],
     dict(attached=1000, refused_too_small=100, refused_no_journal=100, refused_invalid=100, refused_missing=100, deleted_in_use=200, processes_killed=200, views_compared=3000, reattached_later=200, races=300, race_attached=600, race_failed=200, churn_attached=1500),
     technique="runtime monitoring: several real processes over shared segments, injected delays at every edge of the attach code, content and attachment counts compared with a model", note=NOTE)

prop("P25", "exploration", "child: each case runs 220 operations on 2-4 databases (local ones, and shared parents) that register each other: writes, external values and records of every type stored, overwritten, deleted, queried, compared and printed in the referring database and at home, requests that must be refused (indexes, dumps, unregistered sources, shared databases); the images of all databases not written to are compared around every fourth operation, then the children are emptied or deleted. childmax: more registrations than fit. Non-trivial = a distinct value compared in both databases.",
     [R("child", "child", 160, 3000, opts=dict(shm="1")), R("child", "childmax", 4, 40)],
     dict(external_values_stored=1000, external_records_stored=500, external_comparisons=20000, values_read_elsewhere=3000, queries=500, finds=300, register_refused=50, registered=200, operations_refused=300, unregistered_refused=50, children_deleted=100, children_emptied=50, external_freed=200, parents_shared=20))
prop("P28", "exploration", "reads: each case calls every kind of reading function (scan, decode, print, compare, find, query, JSON query, CSV and log-free statistics) on a random database and compares the whole segment with its image from before. protect: the same on a shared segment whose pages are write-protected, and from forked reader processes. threads: several threads read the same database at once under ThreadSanitizer and each must get what a lone reader got. Non-trivial = a distinct reading operation and result.",
     [R("readonly", "reads", 200, 3000, opts=dict(shm="1")), R("readonly", "reads", 50, 600, cfg="alt", opts=dict(shm="1")), R("readonly", "protect", 120, 2000, opts=dict(shm="1")), R("readonly", "threads", 60, 1000, san="tsan", opts=dict(shm="1", cpu="60", wall="120"))],
     dict(images_compared=3000, repeated_reads=1000, protected_reads=2000, reader_processes=30, thread_reads=2000, threads=50),
     technique="runtime monitoring: segment images compared around every reading call, segments write-protected while read, parallel readers under ThreadSanitizer compared with a lone reader")
prop("P29", "exploration", "The real extension module and whitedb.py run in an embedded interpreter, with the C side of the harness looking at the same database. pyops: random inserts, writes (every type and encoding), updates, deletions, queries, index creation, dumps, several connections, in UTF-8 and C locales, compared with a model both from Python and from C. pymisuse: hundreds of kinds of wrong calls between valid ones, each of which must raise and leave the data, the storage in use and the locks as they were; then every function on a detached database and a freed query. pymem: each kind of operation is repeated and the interpreter's objects, the process heap, references to the database and blocks in the database must not grow. Non-trivial = a distinct operation and outcome.",
     [R("py", "pyops", 120, 1500, cfg="py", opts=dict(shm="1")), R("py", "pymisuse", 48, 600, cfg="py", opts=dict(shm="1", wall="120", cpu="60")), R("py", "pymem", 16, 150, cfg="py", opts=dict(shm="1", wall="120", cpu="60"))],
     dict(fields_read=5000, fields_seen_from_c=20000, misuse_refused=1000, detached_refused=300, memory_checks=150, queries=300, deletes=100, connections_closed=3, loads=10),
     technique="runtime monitoring: a Python driver compares every value, row, exception, lock and allocation with a model while AddressSanitizer and UBSan watch the extension module and the library")
prop("P30", "exploration", "Between random valid operations (with indexes, templates, references and values held by the caller) an invalid request of about 90 kinds is made: field numbers, record lengths, column lists, index ids and types, templates and buffers that are out of range by one or by far, values of the wrong type, NULL texts, referenced records, wrong atomic writes, files that are absent or hold something else. Each must give the documented error value and leave every byte of the database as it was (or, where storage is taken and given back on the way, a structure without a trace); in between the whole database is compared with the model. neglog: the same with the journal on, whose replay must give the model. negdb: handles whose memory is no database. Non-trivial = a distinct request and outcome.",
     [R("neg", "neg", 160, 2500), R("neg", "neglog", 60, 900), R("neg", "negdb", 6, 30), R("neg", "neg", 40, 600, san="ubsan")],
     dict(refusals=30000, refused_set_field=200, refused_get_field=200, refused_create_length=300, refused_delete_held=200, refused_index_column=200, refused_index_identical=50, identical_templates=5, refused_copy_small=300, refused_query_column=50, refused_import_junk=30, baddb_calls=200, replays=50, states_compared=500),
     technique="runtime monitoring: result codes, a byte comparison of the whole segment and a structure walk around every refused request, under AddressSanitizer and UBSan")
HEAP = dict(per_file={"yajl_all.c": "-Dmalloc=y_malloc -Drealloc=y_realloc -Dfree=y_free"}, ldflags="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free")
prop("P31", "exploration", "Every malloc, calloc, realloc and free of the library goes through a recorder, and the open files of the process are counted. Around every operation (120 ordinary writes with searches or stored documents, 60 refused requests, 60 readings, 80 of 36 kinds of operations that use process memory: queries, parameters, imports, exports, dumps, journals, replays, JSON, indexes, local databases, each succeeding or failing on invalid input) the blocks and files in use must be those from before, and after the database was closed those from before it was opened. Non-trivial = a distinct operation in a distinct history.",
     [R("heap", "heap", 300, 5000, build=HEAP, opts=dict(shm="1")), R("heap", "heap", 60, 900, cfg="alt", build=HEAP, opts=dict(shm="1"))],
     dict(balances=60000, refused_index_id=100, op_query=300, op_replay_log=300, op_replay_bad_log=300, op_import_bad_dump=300, op_export_csv=300, op_import_csv=300, op_json_query=300, op_logged_writes=300, op_local_database=300, op_parse_json_file=300, op_search_hash=300, databases=300),
     technique="runtime monitoring: every heap call of the library recorded (link-time wrapping), blocks and open files compared around every operation")
prop("P32", "exploration", "Each case builds a random database (indexes, templates, references, or JSON documents) and runs 24 operations of 36 kinds; each is repeated from the same image with the k-th allocation refused (every k up to 10, else the first, the last and random ones), and with all allocations refused from some point on. The call must report failure and leave contents, indexes, structure and free memory as they were, or report a failure that the documentation says may leave the work half done, or give the result and the very segment image it gives without the fault; the heap and the open files must balance in every case. Non-trivial = a distinct (operation, allocation site).",
     [R("heap", "oom", 300, 5000, build=HEAP), R("heap", "oom", 60, 900, cfg="alt", build=HEAP)],
     dict(failures=30000, refused=10000, done_anyway=3000, operations=6000, fail_query=1000, fail_query_match=800, fail_json_query=500, fail_create_hash_index=1000, fail_replay_log=2000, fail_import_csv=1000, fail_logged_writes=1500, fail_local_database=500, fail_parse_json_document=1000, fail_get_all_indexes=300),
     technique="runtime fault injection: allocations of the library refused one after another, results compared with the fault-free run, structure walked and heap balanced afterwards, under AddressSanitizer")
V = lambda src, mode, q, t, **kw: R(src, mode, q, t, san="vg", chunk=2, opts=dict(cpu="400", wall="600", shm="1", **kw.pop("o", {})), **kw)
prop("P33", "exploration", "Workloads of all parts of the library (records, indexes, queries, storage, JSON, text, CSV, dumps, journals, refused requests, child databases, full databases) run under memcheck, which follows every bit of memory that was never set: in the process, and in the segment of a local database, which starts unset. A branch, an address or a system call that depends on such a bit is a violation (except that a dump file holds the segment as it is). The monitors of these workloads are active as well. Non-trivial = as in these workloads.",
     [V("hist", m, 8, 120) for m in ("rec", "tt", "ttbulk", "mem", "hash", "query", "ref")] + [V("hist", "query", 4, 60, cfg="alt"), V("hist", "tt", 4, 60, cfg="alt"), V("readonly", "reads", 8, 120)] +
     [V("json", m, 8, 100) for m in ("jparse", "jquery")] + [V("json", "jbad", 4, 60), V("codec", "vals", 8, 100, o=dict(checked="1")), V("codec", "order", 8, 100)] +
     [V("dumplog", m, 6, 100) for m in ("dump", "dumpdocs", "replay", "replaydocs", "cut", "jfail", "rotate")] + [V("dumplog", m, 4, 60) for m in ("failimport", "faildump", "notjournal")] +
     [V("text", m, 4, 80) for m in ("ptext", "csv", "csvfile", "print")] + [V("neg", "neg", 8, 100), V("neg", "neglog", 4, 60), V("child", "child", 8, 80), V("full", "full", 3, 30)],
     dict(records_created=2000, field_writes=5000, queries=300, finds=200, indexes_created=100, dumps=10, imports=5, replays=8, documents_compared=20, json_queries=100, texts_parsed=500, refusals=500, external_values_stored=20),
     technique="runtime monitoring: valgrind memcheck follows undefined values through the real code under all workloads, with the behavioural monitors active")
