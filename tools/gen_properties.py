#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Records behave as independent arrays of typed values",
  "After any sequence of record creations, field writes and deletions, reading any field of any live record returns exactly the type and value last successfully written to it (NULL if never written), every record keeps the length it was created with, and no operation on one record changes the contents of another. A write that reports an error leaves the target record as it was.",
  ["histories", "inputs"], "every sequence of create/set/delete/read calls over all value types, record lengths and record populations, with and without indexes and journal",
  "The selftest writes a few fixed patterns into records and reads them back once; it never interleaves long create/update/delete histories over all types and sizes, where storage is recycled.",
  ["Db/dbdata.c", "Db/dballoc.c", "Db/dbapi.h"],
  [("record creation and field store", "Db/dbdata.c wg_create_record, wg_set_field, wg_set_new_field, wg_get_field"), ("varlen allocator", "Db/dballoc.c wg_alloc_gints, wg_free_object")],
  ["wg_get_field", "wg_get_record_len", "wg_get_field_type"])

p("P02", "A full scan visits every live data record exactly once",
  "Walking from the first record with the next-record call yields each live data record exactly once and nothing else: never a deleted record, never a record created only as a query parameter or for internal use, and an empty database yields nothing. Deleting every record leaves a database in which the scan is empty and new records are again found.",
  ["histories"], "every history of creations and deletions (including ones that grow the record area to several subareas, free its first or last object and coalesce neighbours)",
  "Tests scan databases of a few thousand records created in order; they do not scan after adversarial deletion patterns that leave free blocks at area boundaries.",
  ["Db/dbdata.c", "Db/dballoc.c"],
  [("record scan over subareas", "Db/dbdata.c wg_get_first_record, wg_get_next_record, wg_get_next_raw_record"), ("subarea start/end markers", "Db/dballoc.c make_subarea_freelist, init_area_buckets")],
  ["wg_get_first_record", "wg_get_next_record"])

p("P03", "Every value decodes to what was encoded",
  "For every supported type (null, integer, double, fixed point, char, date, time, string with optional language, XML literal with type, URI with optional prefix, blob with type and length, variable, record reference) decoding an encoded value returns the original value, its companion string and its length, and the reported type is the type encoded; the copying decoders return the same bytes, terminate strings, never write beyond the given buffer, and report an error when the buffer is too small. Equal values of the same type encode to values that compare equal, and values outside a type's range are rejected with the illegal marker instead of being stored altered.",
  ["inputs"], "every value of every type, including boundary integers, string lengths around the short/long storage limits, every companion-string combination, and every copy-buffer size",
  "dbtest encodes a handful of literals per type; boundaries of 61-bit immediates, 32-byte short strings, empty/NULL companions and exact buffer sizes are sampled barely or not at all.",
  ["Db/dbdata.c", "Db/dbdata.h", "Db/dbhash.c"],
  [("type encoders and decoders", "Db/dbdata.c wg_encode_* / wg_decode_*"), ("short/long string split", "Db/dbdata.c wg_encode_unistr, find_create_longstr")],
  ["wg_encode_*", "wg_decode_*", "wg_get_encoded_type"])

p("P04", "Storage is shared, counted and reclaimed exactly",
  "Long strings with the same content, type and companion string are stored once however many fields hold them, stay readable while any field holds them, and are released when the last holder goes. Storage taken by values and records is returned when fields are overwritten, records deleted or unused encoded values freed, so any history that ends with everything deleted leaves the database with the same usable storage as before, and repeating a create/delete workload never exhausts a database that could run it once.",
  ["histories"], "every history of sharing, overwriting and deleting values of every storable type, including values equal in content but different in type or companion string",
  "The tests check string sharing on a couple of literals and never account for storage over long histories, so a leaked or doubly released object goes unnoticed.",
  ["Db/dbdata.c", "Db/dbhash.c", "Db/dballoc.c"],
  [("long string reference counts", "Db/dbdata.c find_create_longstr, free_field_encoffset, wg_free_encoded"), ("string hash", "Db/dbhash.c wg_find_strhash_bucket, wg_remove_from_strhash")],
  ["wg_database_freesize", "allocator areas (read only)"])

p("P05", "Allocated storage never overlaps and bookkeeping stays well formed",
  "At every point between operations each byte of every storage area belongs to exactly one live object, one free block or the spare block; no two live objects overlap, no freed object is still linked from live data, and free lists contain exactly the free blocks, once each and in the right size class. No operation reads or writes outside the objects it owns.",
  ["histories", "inputs"], "every history of operations on records, values, references, indexes and hashes, for all object sizes and area growth patterns, under address and undefined-behaviour sanitizers",
  "The allocator tests run fixed alloc/free loops; the space of orders in which blocks split, coalesce, become the spare block or sit at an area edge is far larger.",
  ["Db/dballoc.c", "Db/dballoc.h", "Db/dbdata.c", "Db/dbhash.c", "Db/dbindex.c"],
  [("varlen allocation with buckets, designated victim and boundary tags", "Db/dballoc.c wg_alloc_gints, split_free, wg_free_object"), ("fixlen free lists", "Db/dballoc.c wg_alloc_fixlen_object, wg_free_fixlen_object")],
  ["memory segment image between calls"])

p("P06", "References between records are tracked exactly",
  "A record that is referenced by a field of a live record cannot be deleted (the call reports that and changes nothing), and becomes deletable as soon as the last reference is overwritten or its holder deleted. Enumerating the parents of a record yields exactly the live records that currently hold a reference to it.",
  ["histories"], "every reference graph (shared children, several references from one parent, cycles, self references) and every order of overwriting and deleting",
  "The backlink test builds one small fixed graph; multi-references, cycles and overwrite orders are not exercised.",
  ["Db/dbdata.c"],
  [("back links", "Db/dbdata.c wg_set_field, wg_set_new_field, remove_backlink_index_entries, wg_delete_record"), ("parent enumeration", "Db/dbdata.c wg_get_first_parent, wg_get_next_parent")],
  ["wg_delete_record", "wg_get_first_parent", "wg_get_next_parent"])

p("P07", "Ordered indexes mirror the data after every change",
  "An ordered (T-tree) index on a column contains every live data record that has the column and matches the index's template exactly once, in value order, and nothing else, whether the index was created before or after the data and whatever creations, updates, deletions and changes to referenced records follow; the tree stays balanced. Dropping an index removes it and only it, and the data is unaffected.",
  ["histories", "configurations"], "every history of mutations with any number of plain and template indexes over heavily duplicated and distinct keys of all types",
  "Index tests insert and delete integer sequences on one column and check tree shape; duplicate runs across nodes, mixed types, templates and updates through references are hardly covered.",
  ["Db/dbindex.c", "Db/dbdata.c", "Db/dbcompare.c"],
  [("T-tree insert/delete/rotate", "Db/dbindex.c ttree_add_row, ttree_remove_row"), ("index maintenance from field writes", "Db/dbindex.c wg_index_add_field, wg_index_del_field, wg_index_add_rec, wg_index_del_rec"), ("templates", "Db/dbindex.c wg_match_template, add_index_template")],
  ["index walk", "wg_create_index", "wg_drop_index", "wg_get_all_indexes"])

p("P08", "Hash indexes mirror the data after every change",
  "Looking up a combination of column values in a hash index finds exactly the live data records that hold those values in the indexed columns (and match the template), each once, after any history of creations, updates and deletions; a combination no record holds finds nothing. Array elements are indexed individually in the JSON variant.",
  ["histories", "inputs"], "every history over single- and multi-column hash indexes with colliding, empty and duplicated values of all types",
  "The hash index test inserts one fixed data set; removal, updates of one of several key columns and collisions are not covered.",
  ["Db/dbindex.c", "Db/dbhash.c"],
  [("hash index maintenance", "Db/dbindex.c hash_add_row, hash_remove_row, hash_recurse"), ("hash storage", "Db/dbhash.c wg_idxhash_store, wg_idxhash_remove, wg_idxhash_find")],
  ["wg_search_hash", "wg_create_multi_index"])

p("P09", "A query returns exactly the records that satisfy it",
  "A query returns every live data record that has all the columns named and satisfies every condition of its argument list and every non-variable field of its match record, each exactly once, and no other; the answer set is the same whatever indexes exist, and the reported result count equals the number of rows fetched. A row limit returns that many of the matching rows (or all if fewer), and contradictory conditions return none.",
  ["inputs", "histories", "configurations"], "every database content, index set and combination of conditions (=, !=, <, >, <=, >=, several per column) over all value types",
  "The query tests evaluate a few tens of fixed queries against one generated table; equivalence over random condition sets, value types and index choices is not sampled.",
  ["Db/dbquery.c", "Db/dbindex.c", "Db/dbcompare.c"],
  [("query planning and bounds", "Db/dbquery.c internal_build_query, most_restricting_column, check_arglist, prepare_params"), ("T-tree bounds", "Db/dbquery.c find_ttree_bounds, wg_search_ttree_leftmost/rightmost"), ("fetch", "Db/dbquery.c wg_fetch")],
  ["wg_make_query", "wg_make_query_rc", "wg_fetch", "res_count"])

p("P10", "Single-column searches step through exactly the matching records",
  "Calling the find-record functions repeatedly, each time passing the previous result, yields exactly the live data records whose given column satisfies the condition against the given value, each once, then NULL, for every value type's variant and whether or not an index covers the column.",
  ["inputs", "histories"], "every data content, value type, condition and index configuration",
  "The find tests use integers on one column with few duplicates.",
  ["Db/dbquery.c"],
  [("find_record over index or scan", "Db/dbquery.c wg_find_record, wg_find_record_*")],
  ["wg_find_record", "wg_find_record_int", "wg_find_record_str"])

p("P11", "Values are ordered consistently",
  "For any two values exactly one of less, equal and greater holds, swapping the operands reverses the answer, the relation is transitive, and within a type the order is the natural one (numeric for numbers, dates and times, byte order for strings, byte order then length for blobs). The six query conditions and every index use this same order.",
  ["inputs"], "all pairs and triples of non-NaN values drawn from boundary and random values of all types, including records compared by content",
  "The comparison test checks a few literals per type.",
  ["Db/dbcompare.c", "Db/dbquery.c", "Db/dbindex.c"],
  [("value comparison", "Db/dbcompare.c wg_compare"), ("condition check", "Db/dbquery.c check_and_merge_*, wg_find_record")],
  ["queries on a two-record database", "WG_COMPARE"])

p("P12", "Dump and import reproduce the whole database",
  "Importing a dump makes the target database hold exactly the records, values, references, documents and indexes the source held when dumped, whatever it held before, and the result is fully usable: later mutations, index maintenance, queries and locks behave as on the original. Dumping does not change the source, and a dump fits and imports into any database at least as large as the data it contains.",
  ["histories"], "every database history before the dump and every history after the import, over differing source and target sizes",
  "The dump test writes and re-reads one small database and compares little.",
  ["Db/dbdump.c", "Db/dbmem.c"],
  [("dump under read lock", "Db/dbdump.c wg_dump_internal"), ("import under write lock", "Db/dbdump.c wg_import_dump, wg_check_dump")],
  ["wg_dump", "wg_import_dump"])

p("P13", "Failed dumps and imports are reported and harm nothing",
  "When a dump cannot be written completely the call reports failure, and when an import file is missing, truncated, corrupted, incompatible or too large for the database the import reports failure and leaves the database contents exactly as they were. A reported success always means the full image was written or loaded.",
  ["fault_sequences", "inputs"], "every failing file operation during dump and import and every truncation or byte corruption of a dump file",
  "No test injects a write error or feeds a damaged dump.",
  ["Db/dbdump.c"],
  [("header and checksum validation", "Db/dbdump.c wg_check_dump, wg_check_header_compat"), ("write error handling", "Db/dbdump.c wg_dump_internal")],
  ["return codes", "database image before/after"])

p("P14", "Replaying a journal reproduces the logged history",
  "Replaying the journal of a session into an empty database, or into the state the session started from, yields a database with the same records, field values, references and documents as the session ended with. The replay does not depend on the storage addresses in the target, and the replayed database behaves like the original under further operations.",
  ["histories"], "every history of record and field operations over all value types, including reuse of freed storage, shared strings, references, documents and failed operations",
  "The log test journals a few records of simple types and compares a handful of fields.",
  ["Db/dblog.c", "Db/dbdata.c", "Db/dbhash.c"],
  [("log writing", "Db/dblog.c wg_log_create_record, wg_log_encode, wg_log_set_field, wg_log_set_meta"), ("offset translation on replay", "Db/dblog.c recover_journal, recover_encode, recover_set_field")],
  ["wg_start_logging", "wg_replay_log"])

p("P15", "Damaged or cut-off journals are handled safely",
  "A dump plus the journal written after it recovers the latest state; if the journal is cut at any byte (a crash while writing) replay never crashes or hangs, recovers a prefix of the logged history and reports an error if the cut left a partial entry. A file that is not a journal is rejected with the database unmodified, and failures to write the journal are reported to the caller.",
  ["crash_points", "fault_sequences"], "every truncation point of recorded journals, random corruption of journal bytes, and injected journal write failures",
  "No test truncates or corrupts a journal.",
  ["Db/dblog.c", "Db/dbdump.c"],
  [("journal check and recovery", "Db/dblog.c check_journal, recover_journal, wg_replay_log"), ("write error path", "Db/dblog.c write_log_buffer")],
  ["wg_replay_log return code", "state compared with the logged prefix"])

p("P16", "Journal files are rotated without losing or misplacing entries",
  "Every logged change ends up in the current journal of the database, whichever attached process or handle made it; after a dump, import or replay the old journal is kept under the next free backup name and a fresh one is started, and a restarted or stopped journal never receives entries in the wrong file. Logging can be stopped and started again, continuing the journal that matches the database state.",
  ["histories", "schedules"], "every interleaving of logged operations, dump/import/stop/start through several handles and processes of the same and different databases",
  "The log test uses one handle and one journal.",
  ["Db/dblog.c", "Db/dbdump.c", "Db/dbmem.c"],
  [("serial number check and reopen", "Db/dblog.c write_log_buffer, get_journal, open_journal, backup_journal"), ("restart after dump", "Db/dbdump.c wg_dump_internal, wg_import_dump")],
  ["journal directory contents", "replayed states"])

p("P17", "Write locks exclude everyone, read locks exclude writers",
  "While a write lock is held no other lock is granted, and while any read lock is held no write lock is granted, for every locking protocol the library offers and for any mix of processes and threads. Data written before releasing the write lock is visible to the next holder.",
  ["schedules", "configurations", "fault_sequences"], "every schedule of lock, unlock and timeout by any number of processes and threads, including interrupted and spurious wake-ups",
  "The existing tests never take locks from more than one thread with overlap checks, and stresstest only counts.",
  ["Db/dblock.c", "Db/dblock.h"],
  [("reader-preference spinlock", "Db/dblock.c db_rpspin_*"), ("writer-preference spinlock", "Db/dblock.c db_wpspin_*"), ("task-fair queue", "Db/dblock.c db_tfqueue_*")],
  ["overlap monitor in the critical section"])

p("P18", "Locks are granted, time out and recover",
  "A lock request either returns a lock or fails after about the timeout, never blocks forever once conflicting locks have been released, and a request that timed out leaves no trace: after all holders release, both kinds of lock can be taken again. Concurrent readers are admitted together, and under the queued protocol waiting requests are served in order so neither readers nor writers starve.",
  ["schedules", "fault_sequences", "configurations"], "every interleaving of grants, releases and timeouts, with interrupted waits and delays injected around the wait and wake calls",
  "Timeout/grant races need particular interleavings that a single-threaded test cannot produce.",
  ["Db/dblock.c"],
  [("timeouts and queue removal", "Db/dblock.c db_tfqueue_wlock, db_tfqueue_rlock, remove_from_queue"), ("spin timeouts", "Db/dblock.c db_rpspin_wlock, db_wpspin_rlock")],
  ["lock grant and release event log"])

p("P19", "Atomic field updates are linearizable",
  "The atomic field operations take effect as single indivisible steps under any concurrency: concurrent atomic additions all count, a compare-and-set succeeds only when the field held the expected value and exactly one of several competing ones wins, and failures report the documented code and change nothing. They refuse fields and values that need bookkeeping (indexed columns, stored strings, references, logged databases).",
  ["schedules", "inputs"], "every schedule of atomic operations from any number of threads and processes, and every operand and field kind",
  "The existing tests call the atomic functions sequentially.",
  ["Db/dbdata.c", "Db/dblock.c"],
  [("atomic field operations", "Db/dbdata.c wg_update_atomic_field, wg_set_atomic_field, wg_add_int_atomic_field"), ("compare and swap", "Db/dblock.c wg_compare_and_swap")],
  ["recorded operation history checked for linearizability"])

p("P20", "Running out of space fails cleanly",
  "When the database is full, operations that need space report failure through their documented return values, existing records, references and indexes keep their contents and remain consistent and readable, and after deleting data new data can be stored again. No operation on a full database corrupts it or crashes.",
  ["histories", "fault_sequences"], "every operation at every fill level of small databases, including the exact point inside a compound operation at which space runs out",
  "Only one test fills a database, and it does not check consistency afterwards.",
  ["Db/dballoc.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dbhash.c", "Db/dbjson.c"],
  [("allocation failure propagation", "Db/dballoc.c wg_alloc_gints, wg_alloc_fixlen_object, extend_fixedlen_area, extend_varlen_area"), ("callers", "Db/dbdata.c, Db/dbindex.c, Db/dbhash.c")],
  ["return codes", "structure check and model check after each failure"])

p("P21", "JSON documents are stored as given",
  "Parsing a valid JSON document stores a document whose arrays, objects, keys, numbers and strings (including escapes and UTF-8) are those of the text, in order, whether it comes from a string or a file of any length, and printing it gives JSON equivalent to the input. Each document, including nested values, can be found from any of its parts and deleted as a whole, which frees all of its storage.",
  ["inputs"], "every valid JSON text whose top level is an object or array within the documented limits (nesting depth, key length), of any size and layout",
  "JSON tests parse about a dozen short literals from memory.",
  ["Db/dbjson.c", "Db/dbschema.c", "json/yajl_all.c"],
  [("parser callbacks building records", "Db/dbjson.c add_elem, push, pop, end_*_cb"), ("file reading", "Db/dbjson.c wg_parse_json_file"), ("document deletion", "Db/dbschema.c wg_delete_document"), ("printing", "Db/dbjson.c wg_print_json_document")],
  ["document walk", "wg_print_json_document output re-parsed"])

p("P22", "Invalid JSON is refused without touching the database",
  "The validity check accepts the valid JSON documents that can be stored (arrays and objects nested at most six deep, numbers in range, no zero characters; comments are allowed) and no other text, without changing the database. What it accepts can be parsed. Parsing a file that is not such a document reports failure and leaves the database unmodified; parsing such a text directly reports failure. No input of any content or length causes a crash, an out-of-bounds access, a hang or a damaged database.",
  ["inputs"], "every byte string, biased to near-valid JSON, from memory and from file, including sizes at multiples of the read buffer",
  "Three invalid literals are tested.",
  ["Db/dbjson.c", "json/yajl_all.c"],
  [("validation pass before parsing", "Db/dbjson.c wg_check_json, check_push_cb, check_pop_cb"), ("lexer and parser", "json/yajl_all.c")],
  ["return code", "database contents before/after", "sanitizers"])

p("P23", "JSON queries find exactly the matching documents",
  "A query by key/value pairs returns each document in which every given key occurs with the given value at any nesting level (array values match by any of their elements), each once, and no other document, with or without the JSON hash indexes. Running a query leaves no trace in the database.",
  ["inputs", "histories"], "every set of stored documents and every set of key/value arguments",
  "One small fixed document set is queried by the tests.",
  ["Db/dbquery.c", "Db/dbschema.c", "Db/dbindex.c"],
  [("JSON query evaluation", "Db/dbquery.c wg_make_json_query, prepare_json_arglist, find_document"), ("document lookup from a part", "Db/dbschema.c wg_find_document")],
  ["wg_make_json_query", "wg_fetch"])

p("P24", "Text parsing and CSV keep values intact",
  "Parsing a text value yields the documented type for its form (empty is NULL, plain integer, number in fixed decimal notation, ISO date, ISO time, otherwise string) with the value the whole text denotes, and never depends on earlier calls; the same holds for query parameters. Exporting records to CSV and importing the file gives records of the same length in the same order, with the same values where the text form can tell them (NULL, integers, doubles of at most six decimals, dates, times, and strings that do not themselves look like one of these), including long strings and strings containing quotes, separators, newlines and any other byte; values of other types do not disturb the fields around them. Records that would be an empty line (no field, or one NULL field) are the exception: import skips empty lines. Hand-written CSV files (quoted or not, LF or CRLF, last line with or without line end) are read the same way and a broken file leaks no storage. Printing a value shows it, never overruns its buffer and always terminates the text.",
  ["inputs"], "every text, every record set of the supported types, every CSV file of the supported form and every buffer size",
  "Parsing is tested on a dozen literals and CSV import/export not at all.",
  ["Db/dbutil.c"],
  [("type guessing", "Db/dbutil.c wg_parse_and_encode, parse_input_type"), ("CSV read/write", "Db/dbutil.c fread_csv, fwrite_csv, snprint_value_csv"), ("value printing", "Db/dbutil.c wg_snprint_value")],
  ["wg_parse_and_encode", "wg_export_db_csv", "wg_import_db_csv", "wg_snprint_value"])

p("P25", "Data referenced from another database reads as in its home",
  "After registering an external local database, values and records of it stored as external references in another database decode, compare and match in queries exactly as they do in their home database, and using, overwriting or deleting the referring records never changes the home database. Operations that cannot be supported with external references (indexing external data, registering in a shared database, dumping) are refused with an error.",
  ["inputs", "histories"], "every value type and record shape referenced externally and every history of use in the referring database",
  "The child database test checks a few values in one fixed pair of databases.",
  ["Db/dbdata.c", "Db/dballoc.c", "Db/dbcompare.c"],
  [("external reference translation", "Db/dbdata.c wg_encode_external_data, wg_translate_hdroffset"), ("registration", "Db/dballoc.c wg_register_external_db")],
  ["decoded values via both handles"])

p("P26", "Named databases are shared, persistent and kept apart",
  "Every process attaching a name sees the same database, changes made through one handle are seen through the others, data survives while no process is attached, different names (integers from 1 to 2^31-2, as documented) never share data, and after deletion the name is free again while processes still attached go on with what they have. Attaching fails, without harm and without keeping anything attached, when the database does not exist and creation was not asked for, when it is smaller than requested, when a journal is asked for and it has none, or when it is not a valid compatible database; of processes racing to create a name all that succeed get the same initialised database.",
  ["schedules", "histories"], "every sequence and interleaving of attach, detach, delete and use by several processes over several names and sizes",
  "Tests use a private local database; shared segments are attached by one process at most.",
  ["Db/dbmem.c"],
  [("attach/create/initialise", "Db/dbmem.c wg_attach_memsegment, link_shared_memory, create_shared_memory"), ("detach/delete", "Db/dbmem.c wg_detach_database, wg_delete_database")],
  ["multi-process observation log"])

p("P27", "Dates and times convert both ways",
  "Converting a calendar date or a time of day to the database representation and back gives the same date or time for every valid one, consecutive days have consecutive values, ISO text is parsed to and printed from the same values, and invalid dates, times and texts are rejected.",
  ["inputs"], "every valid calendar day of years 1 to 9999, every hundredth of a second of a day, and invalid neighbours",
  "One date and one time are tested.",
  ["Db/dbdata.c"],
  [("calendar arithmetic", "Db/dbdata.c ymd_to_scalar, scalar_to_ymd, wg_ymd_to_date, wg_date_to_ymd"), ("ISO text", "Db/dbdata.c wg_strf_iso_datetime, wg_strp_iso_date, wg_strp_iso_time")],
  ["conversion functions compared with an independent calendar"])

p("P28", "Reading never changes the database",
  "Reading, scanning, searching, comparing, printing, exporting and querying (including encoding and freeing query parameters) leave the database image bit for bit unchanged, so any number of readers may run at the same time under read locks and each sees the same consistent data.",
  ["schedules", "inputs"], "every read-side call on every database content, run alone on a write-protected image and concurrently from several threads",
  "No test watches the image while reading.",
  ["Db/dbquery.c", "Db/dbdata.c", "Db/dbutil.c", "Db/dbindex.c"],
  [("query parameters kept in local memory", "Db/dbquery.c encode_query_param_unistr, wg_free_query_param"), ("read-only traversal", "Db/dbdata.c wg_get_*, Db/dbindex.c search functions")],
  ["write-protected or checksummed segment"])

p("P29", "The Python interface stores and returns the same values",
  "Values written through the Python interface (None, integers of up to 64 bits, floats, strings without embedded NULs, dates, times, records, and with an explicit encoding characters, fixpoint numbers, URIs, XML literals and variables) are read back as equal Python values of the documented type and are the same values the C interface sees; values C writes are read by Python. Cursors and queries return exactly the matching records, and record deletion and transactions obey the same rules as the C interface. Misuse (values of the wrong type or that do not fit, out-of-range columns and lengths, detached databases and closed connections, freed queries, a record object after the record was deleted through it) raises an ordinary Python exception; it never crashes the interpreter, stores something else, leaves part of a refused record or value in the database or leaves a lock held. Repeating any operation leaks neither Python objects, process memory nor database storage.",
  ["inputs", "histories"], "every sequence of connection, cursor and record operations with values of all supported Python types",
  "Python/tests.py checks fixed scenarios with few values per type.",
  ["Python/wgdbmodule.c", "Python/whitedb.py"],
  [("value conversion", "Python/wgdbmodule.c encode_pyobject_*, wgdb_get_field"), ("DB-API layer", "Python/whitedb.py Connection, Cursor, Record")],
  ["model comparison in Python"])

p("P30", "Invalid requests are refused without side effects",
  "Calls with arguments the documentation forbids (negative or too large field numbers and lengths, values of the wrong type, unknown index ids or types, missing match records, deleting what is referenced) return the documented error value and leave data, indexes and free space exactly as they were; later valid calls work as if the bad call had not been made.",
  ["inputs", "histories"], "every API function with each class of invalid argument, interleaved with valid operations",
  "Error returns are checked for a few calls and never for side effects.",
  ["Db/dbdata.c", "Db/dbindex.c", "Db/dbquery.c"],
  [("argument checks", "Db/dbdata.c wg_set_field, wg_get_field; Db/dbindex.c wg_create_multi_index, wg_drop_index")],
  ["return codes", "image comparison before/after"])

p("P31", "Process memory and files are given back",
  "Every operation of the library gives back all process memory and open files it used by the time its result is released: a finished, failed or refused call leaves none behind, freeing a query, a query parameter or an index list releases everything that belongs to it, and closing a database leaves the process as it was before it was opened. (The journal file a database handle keeps open for logging is closed at the latest when the handle is closed.)",
  ["inputs", "histories"], "every API operation, on every outcome, including imports, replays and parses of invalid files",
  "Tests never look at what a call leaves allocated.",
  ["Db/dbquery.c", "Db/dblog.c", "Db/dbdump.c", "Db/dbjson.c", "Db/dbutil.c", "Db/dbhash.c", "Db/dbindex.c", "Db/dbmem.c", "Db/dbmpool.c"],
  [("release", "Db/dbquery.c wg_free_query, wg_free_query_param; Db/dbhash.c wg_ginthash_free; Db/dbmpool.c wg_free_mpool; Db/dbmem.c wg_delete_local_database")],
  ["recorded heap calls", "open file count"])

p("P32", "Running out of process memory is reported, never fatal",
  "When any allocation of process memory inside the library fails, the call does not crash: it returns its documented error value and leaves contents, indexes and free space as they were, or (where the documentation says that a failed call may leave its work half done: imports, replays, JSON documents, index maintenance) reports that failure, or it succeeds with exactly the effect it has without the failure. It never reports success with a wrong or partial result, and nothing stays allocated. (Text printed or exported by functions that return no result may be incomplete; the JSON reader that is included from another project is taken to get its memory.)",
  ["inputs", "histories", "fault points"], "every allocation made during every operation, failing alone or together with all after it",
  "No test makes an allocation fail.",
  ["Db/dbquery.c", "Db/dblog.c", "Db/dbdump.c", "Db/dbjson.c", "Db/dbutil.c", "Db/dbhash.c", "Db/dbindex.c", "Db/dbmem.c", "Db/dbmpool.c"],
  [("error paths", "Db/dbquery.c internal_build_query, wg_make_json_query; Db/dbhash.c wg_decode_for_hashing; Db/dblog.c wg_log_encval; Db/dbindex.c hash_recurse")],
  ["result codes", "image comparison", "structure walk"])

p("P33", "Results depend on what was stored, not on unset memory",
  "No operation lets its result, its control flow, an address or what it writes to a file (other than the image of the segment in a dump) depend on process memory or parts of the database segment that were never set: the same calls on the same data always do the same, whatever the memory held before.",
  ["inputs", "histories", "memory contents"], "every operation of every part, on fresh memory with arbitrary previous contents",
  "A test passes or fails by what the memory happens to hold, usually zeros.",
  ["Db/dballoc.c", "Db/dbmem.c", "Db/dbdata.c", "Db/dbindex.c", "Db/dbquery.c", "Db/dbhash.c", "Db/dblog.c", "Db/dbdump.c", "Db/dbjson.c", "Db/dbutil.c", "Db/dbmpool.c"],
  [("initialisation of the segment", "Db/dballoc.c wg_init_db_memsegment, init_db_subarea"), ("initialisation of process memory", "Db/dbquery.c internal_build_query, create_resultset; Db/dbmem.c init_dbhandle; Db/dbhash.c wg_ginthash_init")],
  ["valgrind memcheck"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
