import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("F01","Only byte-identical files are ever reported as duplicates",
 "Two paths listed in the same duplicate group, in text or JSON output, always have exactly the same length and the same bytes. This holds whatever the file sizes, the position of the first difference, the number of files sharing a size, the read strategy (memory map or chunked reads) and even when different contents have the same checksum.",
 ["inputs","configurations"],"every tree of regular files, every placement of differences inside them, every option set, every behaviour of the checksum function (collisions included)",
 "The suite compares a handful of small fixture files; difference positions, chunk boundaries, sizes above the memory-map limit and checksum collisions are never varied.",
 ["src/ft_process.c","src/ft_report.c","src/ft_report_json.c","src/ft_file.c","src/ft_types.h"],
 [("grouping by size, then by checksum","src/ft_process.c:categorize_files"),("byte comparison before reporting","src/ft_report.c:compare_and_report_pair, src/ft_report_json.c:perform_file_comparison"),("memory-map and chunked comparison","src/ft_file.c:filecmp")],
 [("candidate table","files of one size with their checksums","src/ft_types.h:ft_fsize_t")],["standard output of the command (text and JSON)"])
p("F02","Every set of identical files is reported as one complete group",
 "For the files under consideration, the report is exactly the partition into equal-content classes with at least two members: every member of such a class appears in one and the same group, no path appears in two groups or twice in a group, and a file without a twin appears nowhere. A path reached through several arguments counts once.",
 ["inputs","configurations"],"every tree and every multiset of arguments, any number of equal-size and equal-checksum files, empty files included",
 "Tests check that some pairs are printed; they never check the whole partition against the tree, many same-size classes, zero-length files, colliding checksums or overlapping arguments.",
 ["src/ft_process.c","src/ft_report.c","src/ft_report_json.c","src/ft_traverse.c","src/napr_heap.c","src/napr_hash.c"],
 [("per-size counting and checksum tasks","src/ft_process.c:categorize_files, dispatch_hashing_tasks, collect_hashing_results"),("twin marking while reporting","src/ft_report.c:process_and_report_duplicates_for_file")],
 [("file heap","all files found, by size","src/ft_config.h:ft_conf_t")],["standard output of the command (text and JSON)"])
p("F03","Filter options select exactly the files they describe",
 "A file found below a scanned directory is considered if and only if its size lies within the inclusive minimum and maximum sizes, neither it nor a directory on the way is hidden (unless hidden files are requested), is in the ignore list, or matches the ignore regex, its path matches the whitelist regex when one is given (directories are still descended), it is not below a subdirectory when recursion is off, and it is a regular file or, only when following links is requested, a link leading to one. Following links terminates on link cycles without entering a directory from within itself, and the case option makes both regexes and the priority path case-insensitive.",
 ["inputs","configurations"],"every tree (nesting, hidden entries, links, cycles, permissions) combined with every combination of filter options",
 "Tests exercise options one at a time on fixed fixture directories; combinations and boundary sizes are not explored.",
 ["src/ft_traverse.c","src/ft_config.c"],
 [("size bounds","src/ft_traverse.c:process_file"),("name, hidden and recursion filters","src/ft_traverse.c:process_directory"),("regex filters","src/ft_traverse.c:process_directory_entry"),("option decoding","src/ft_config.c:process_options")],
 [],["standard output of the command"])
p("F04","Ignore files and built-in ignore patterns follow gitignore semantics",
 "A path below a scanned directory is skipped exactly when the last matching pattern, taking the built-in patterns first, then the .gitignore files from the outermost scanned directory to the innermost one, is not negated; nothing below a skipped directory is considered. Patterns support *, **/, ?, character classes, backslash escapes, comments, a leading slash or inner slash (anchored at the ignore file's directory), a trailing slash (directories only) and a leading ! (negation), and an ignore file never affects paths outside its own directory. Absolute and relative scan roots behave the same.",
 ["inputs","histories"],"every set of ignore files at every level of every tree, and every pattern list built from the supported syntax",
 "Tests probe single patterns and one or two levels; precedence across levels, anchoring and interplay of negation with pruning are combinatorial.",
 ["src/ft_ignore.c","src/ft_traverse.c","src/ft_config.c"],
 [("pattern translation","src/ft_ignore.c:ft_glob_to_pcre"),("precedence over the hierarchy","src/ft_ignore.c:ft_ignore_match"),("ignore file discovery and pruning","src/ft_traverse.c:process_directory, traverse_recursive"),("built-in patterns","src/ft_config.c:default_ignores")],
 [("ignore context chain","patterns per directory","src/ft_ignore.h")],["set of files considered by the command"])
p("F05","Reported groups do not depend on how the work is executed",
 "For one tree and one set of filters, the set of groups is the same for every number of threads, every limit between memory-mapped and chunked reading, every order of the arguments, with or without the memory, verbose, dry-run, size-display and separator options, in text or JSON form, and on every repetition.",
 ["schedules","configurations","inputs"],"all thread counts and schedules, all read-strategy limits, all argument orders, over trees including files around chunk-size boundaries",
 "Tests run one configuration per fixture and never compare two configurations on the same tree.",
 ["src/ft_process.c","src/ft_file.c","src/napr_threadpool.c","src/ft_report.c","src/ft_report_json.c"],
 [("parallel checksum tasks","src/ft_process.c:dispatch_hashing_tasks"),("read strategy choice","src/ft_file.c:checksum_file, filecmp")],
 [],["standard output of the command"])
p("F06","JSON output is valid and faithfully describes the groups",
 "Whenever at least one file is considered, JSON mode prints one valid document and nothing else on standard output: an array with one object per group carrying the common size in bytes, the XXH128 checksum of the content as 32 hexadecimal digits, and for every member its absolute path, its modification time in UTC to the second, and whether it lies under the priority path. File names (any valid UTF-8, however much escaping they need) come back exactly.",
 ["inputs","configurations"],"every tree, file name (escapes, non-ASCII), size, modification time and option set",
 "Tests parse the output for one or two fixtures only.",
 ["src/ft_report_json.c","src/ftwin.c"],
 [("document construction","src/ft_report_json.c:find_and_report_duplicates, create_file_json_object"),("absolute paths","src/ftwin.c:run_ftwin_processing")],
 [],["standard output of the command in JSON mode"])
p("F07","Report order and layout: largest first, priority path first, exact separators",
 "Groups come out in non-increasing order of file size, and within a group every path under the priority path precedes every other path. In text mode, a group is its members joined by the separator character, terminated by a blank line, and preceded, when sizes are requested, by one line with the common size in human-readable binary units. On a terminal the text is the same, apart from colour codes.",
 ["inputs","configurations"],"every tree, priority path, separator and size-display setting",
 "Tests look for substrings; relative order of many groups and members and the complete layout are not compared.",
 ["src/ft_report.c","src/ft_file.c","src/napr_heap.c","src/human_size.c","src/ft_traverse.c"],
 [("size order","src/ft_config.c:ft_file_cmp, src/napr_heap.c"),("priority order","src/ft_report.c:ft_chksum_cmp"),("layout","src/ft_report.c:compare_and_report_pair"),("size formatting","src/human_size.c:format_human_size")],
 [],["standard output of the command"])
p("F08","Unreadable, vanishing or failing entries are skipped, never misreported",
 "When an entry below a scanned directory cannot be inspected, opened or read (missing permission, dangling link, removed while scanning, shrunk after being found, read error), the run still succeeds and reports exactly the groups of the remaining files. A file whose content could not be read in full is never reported as a duplicate of a file it was not compared with completely.",
 ["fault_sequences","inputs"],"every subset of entries failing at every call (stat, open directory, open, map, read) in every position of the scan",
 "Tests have no fault injection: two permission fixtures only.",
 ["src/ft_traverse.c","src/ft_process.c","src/ft_file.c","src/ft_report.c","src/ft_report_json.c"],
 [("skip on stat and open errors","src/ft_traverse.c:get_file_info, process_directory_entry, check_permissions"),("short read handling","src/ft_file.c:big_filecmp, checksum_big_file"),("skip on comparison errors","src/ft_report.c:compare_and_report_pair")],
 [],["exit status and standard output of the command under injected faults"])
p("F09","Scanning never changes the scanned tree",
 "No run, whatever its options, errors included, creates, deletes, renames, rewrites, truncates or changes permissions or modification times of anything in the scanned tree, and no temporary file survives the run.",
 ["inputs","configurations","fault_sequences"],"every tree, option set and injected failure",
 "Tests never compare the tree before and after a run.",
 ["src/ft_traverse.c","src/ft_file.c","src/ft_archive.c","src/ft_report.c"],
 [("read-only opens","src/ft_file.c"),("temporary extraction files removed","src/ft_archive.c:ft_archive_untar_file, src/ft_report.c:cleanup_comparison_paths")],
 [],["file system state before and after the command; system calls made"])
p("F10","Image mode pairs exactly the images closer than the chosen threshold",
 "In image mode every unordered pair of readable images under consideration whose normalised signature distance is strictly below the threshold of the chosen level appears once as reported neighbours, and no other pair does; files that are not decodable images are skipped without affecting the rest. Below the scanned directories only files with an image extension (gif, png, jpg, jpeg), in any letter case and at any depth, are considered.",
 ["inputs","configurations","schedules"],"every set of images and non-images, every threshold level, every worker schedule",
 "Tests compare a few fixture images at one threshold.",
 ["src/ft_image.c","src/ft_config.c"],
 [("signature computation in workers","src/ft_image.c:compute_image_vectors"),("pairwise comparison","src/ft_image.c:compare_image_vectors"),("threshold table","src/ft_config.c:handle_image_options")],
 [],["standard output of the command in image mode"])
p("F11","Archive members are extracted exactly, or not at all",
 "Extracting a named member of an archive yields a fresh private temporary file with exactly that member's bytes, whatever the archive format, the member's position and the other members. When the member is missing, is not a plain file or is damaged so that its bytes cannot be recovered, the extraction reports failure, leaves no temporary file behind and never touches anything else. The outcome does not depend on the extractions that went before, however many of them failed, nor on those running at the same time in other threads.",
 ["inputs","fault_sequences"],"every archive format supported, every member name the locale can express, every truncation or damage that the format lets one notice",
 "Tests extract one member from five intact fixture archives.",
 ["src/ft_archive.c"],
 [("member search and copy","src/ft_archive.c:ft_archive_untar_file, copy_data")],
 [],["result of the extraction call, temporary directory contents"])
p("F12","Command lines, sizes and option values mean what they say, or are refused",
 "A size argument is a finite non-negative number optionally followed by blanks and a unit: B, or one of K, M, G, T (powers of 1024) by itself or followed by B or iB, in either case; it is taken at that value truncated to a whole byte. Any other text, a value too large for a file size, a thread count that is not a whole number from 1 to 256 and an image threshold level other than 1 to 5 are refused with a usage error and a non-zero exit before scanning; so are an unknown or misspelled option, an option without the value it needs, a value given to an option that takes none, and a command line that names no path. Human-readable rendering of any size uses the largest binary unit not exceeding it, one decimal (nearest) above bytes.",
 ["inputs"],"every string given as a size, thread count or threshold; every command line; every size rendered",
 "Tests check a dozen strings.",
 ["src/human_size.c","src/ft_config.c"],
 [("parsing","src/human_size.c:parse_human_size"),("rendering","src/human_size.c:format_human_size"),("validation","src/ft_config.c:handle_numeric_option")],
 [],["parse and format results, exit status, files considered"])
p("F13","Verbose mode accounts for every file examined and changes nothing else",
 "With -v the report and the exit status are those of the run without it. Standard error counts the files examined one by one (\"Progress [k/N]\"): the counts shown rise by one without repetition or gap, whatever the threads do, each with its percentage of N. A file whose content cannot be read is named once as skipped, with the reason, and no other file is; files counted and files skipped add up to the N announced. An unreadable file that has another file of its size is always named, alone or in a comparison that could not be made; with -f a dangling link is named. In image mode the images and then the comparisons are counted up to the end in the same way. With -J verbose mode is switched off.",
 ["inputs","schedules","fault_sequences"],"every tree, number of threads and schedule; every set of unreadable files",
 "No test looks at standard error.",
 ["src/ft_process.c","src/ft_image.c","src/ft_report.c","src/ft_traverse.c"],
 [("counting","src/ft_process.c:hashing_worker_callback"),("image progress","src/ft_image.c:compute_vector, compare_image_vectors"),("comparison skipped","src/ft_report.c"),("dangling link","src/ft_traverse.c:get_file_info")],
 [],["standard error, standard output and exit status with and without -v"])
p("T01","Thread pool: every submitted task runs exactly once, on some worker",
 "Every task accepted by the pool is executed exactly once with its own data (provided the pool is not shut down before the task could run), for any number of workers and any interleaving of submissions, executions, spurious wake-ups and failing tasks; a failing task does not prevent the others from running.",
 ["schedules","histories"],"all schedules of submitters and workers, spurious wake-ups, all numbers of workers and tasks, several rounds",
 "Tests run with whatever schedule the kernel picks.",
 ["src/napr_threadpool.c"],
 [("task list under lock","src/napr_threadpool.c:napr_threadpool_add, napr_threadpool_loop")],
 [("task list, waiting count, ended and run flags","shared queue state","src/napr_threadpool.c:struct napr_threadpool_t")],["task executions observed by the callback"])
p("T02","Thread pool: waiting returns after all tasks, shutdown always terminates",
 "Waiting on the pool returns only when every task submitted before the call has finished, and always eventually returns, including with no task submitted, when called repeatedly and when tasks were added between waits. Shutdown always terminates with all workers gone, and no schedule or spurious wake-up deadlocks the pool. A pool that cannot start all its workers fails to be created and leaves no worker behind.",
 ["schedules","histories"],"all schedules of waits, submissions, worker steps and spurious wake-ups",
 "Tests cannot force lost or spurious wake-ups.",
 ["src/napr_threadpool.c"],
 [("wait condition","src/napr_threadpool.c:napr_threadpool_wait"),("last idle worker signals the waiter","src/napr_threadpool.c:napr_threadpool_loop"),("shutdown broadcast and join","src/napr_threadpool.c:napr_threadpool_shutdown")],
 [("task list, waiting count, ended and run flags","shared queue state","src/napr_threadpool.c:struct napr_threadpool_t")],["return of wait and shutdown calls relative to task executions"])
p("S01","The heap is a lossless priority queue",
 "After any sequence of insertions and extractions, extraction returns an element than which no stored element ranks higher under the given ordering, every inserted element comes out exactly once, and the reported size and the positional accessor always agree with the multiset still stored. The locked variants behave the same when used from several threads.",
 ["histories","schedules"],"all operation sequences, ties and growth points; all interleavings for the locked variants",
 "Tests insert one fixed sequence.",
 ["src/napr_heap.c"],
 [("sift up and down","src/napr_heap.c:napr_heap_insert, napr_heap_extract"),("lock variants","src/napr_heap.c:napr_heap_insert_r, napr_heap_extract_r")],
 [],["results of heap operations"])
p("S02","The hash table is an exact map under growth, collision and removal",
 "After any sequence of insertions, removals and lookups, a lookup finds an element exactly when an element with that key is stored and not removed since, and iteration visits every stored element exactly once, whatever the key distribution, collisions and growth.",
 ["histories","inputs"],"all operation sequences and key sets, including colliding keys and every growth point",
 "Tests use one dictionary file.",
 ["src/napr_hash.c"],
 [("bucket search and insertion","src/napr_hash.c:napr_hash_search, napr_hash_set"),("growth","src/napr_hash.c:napr_hash_rebuild"),("removal","src/napr_hash.c:napr_hash_remove"),("iteration","src/napr_hash.c:napr_hash_first, napr_hash_next")],
 [],["results of hash table operations"])
DB=["src/napr_db.c","src/napr_db_tree.c","src/napr_db_internal.h"]
p("D01","Database: lookups return exactly the last stored value of every key",
 "Within a transaction and after commit and reopen, a lookup returns the value most recently stored for the key, and reports absence exactly when the key was never stored or was deleted since. This holds for every insertion order, number of keys, and mix of key and value sizes, through every page split and deletion; storing a key again replaces its value, except that a key first stored in the same transaction is refused as already existing; a deletion that names a value deletes only if the stored value equals it; a key or value too large to be stored is refused, and a refused request leaves all data unchanged.",
 ["histories","inputs"],"all sequences of put, delete and get over all key and value sizes and orders, across commits and reopenings",
 "Tests insert sequential fixed-size keys; split positions, separators between key ranges and variable sizes are not varied.",
 DB,
 [("leaf and branch search","src/napr_db_tree.c:db_page_search"),("insertion with splitting","src/napr_db.c:napr_db_put, tree_put, make_room; src/napr_db_tree.c:db_split_page, db_page_insert"),("deletion","src/napr_db.c:napr_db_del")],
 [("pages","B+ tree reachable from the live meta page","database file")],["results of get, put, delete and of a full scan"])
p("D02","Database: commit applies all of a transaction, abort none of it",
 "A write transaction sees its own changes at once, other transactions see none of them before commit, all of them after a successful commit, and none ever after an abort or a failed commit, whatever mixture of insertions, updates and deletions it made.",
 ["histories","schedules"],"all histories of write transactions ended by commit or abort",
 "Tests abort one trivial transaction.",
 DB,
 [("private copies of changed pages","src/napr_db_tree.c:db_page_get_writable"),("meta page switch at commit","src/napr_db.c:napr_db_txn_commit"),("discard on abort","src/napr_db.c:napr_db_txn_abort")],
 [],["full contents seen by transactions before and after the end of each write transaction"])
p("D03","Database: a read transaction keeps one unchanging snapshot",
 "From its beginning to its end, every lookup and every cursor step of a read transaction answers from the state committed last before it began, no matter how many write transactions commit, abort, split, delete or reuse space meanwhile. Values it has returned stay readable and unchanged until it ends. At least 126 read transactions can be open at a time, and ending one, from whichever thread, makes its place free again.",
 ["schedules","histories"],"all interleavings of readers with any number of committing writers, including space reuse",
 "Tests hold one reader across one commit that does not disturb its pages.",
 DB,
 [("copy on write to fresh pages","src/napr_db.c:relocate_pages, build_pgno_map"),("reader table","src/napr_db.c:napr_db_txn_begin"),("reuse only of pages no reader can see","src/napr_db_tree.c:db_page_alloc, src/napr_db.c:db_get_oldest_reader_txnid")],
 [("reader slots","snapshots in use","src/napr_db_internal.h:napr_db_reader_slot_t"),("free list","pages released per transaction","database file")],["results of reads in a long-lived read transaction"])
p("D04","Database: committed data survives a crash, uncommitted data leaves no trace",
 "If the machine or process stops at any moment, reopening the database succeeds and shows exactly the state after the last commit that returned, or the state after the commit in progress, in full. This includes unsynchronised writes being lost or applied in any order, and writes being torn between disk sectors of 512 bytes; it includes the creation of the database. The recovered database accepts further transactions.",
 ["crash_points","histories"],"every crash point between and inside system calls of every history of transactions, every subset of unsynchronised writes persisted",
 "Tests close the database cleanly.",
 DB,
 [("data pages synchronised before the meta page","src/napr_db.c:napr_db_txn_commit, commit_meta_page"),("two alternating meta pages","src/napr_db.c:select_live_meta")],
 [("meta pages 0 and 1","alternating commit records","database file")],["contents after reopening every crash image"])
p("D05","Database: cursors enumerate exactly the stored keys, in order",
 "A cursor positioned first (last) and moved next (previous) visits every key of its transaction's view exactly once in ascending (descending) byte order with its value, then reports the end; exact and range positioning land on the equal key, respectively on the smallest key not below the requested one, wherever pages begin and end, including after deletions emptied parts of the tree.",
 ["histories","inputs"],"all key sets, deletions and tree shapes; all sequences of cursor operations",
 "Tests iterate over sequential keys without deletions.",
 ["src/napr_db_cursor.c","src/napr_db_tree.c"],
 [("positioning and movement with a page stack","src/napr_db_cursor.c:napr_db_cursor_get")],
 [],["results of cursor operations compared with the ordered contents"])
p("D06","Database: at most one write transaction exists at any time",
 "Between threads of one process sharing a database handle, a second write transaction never begins before the first has committed or aborted, every blocked writer eventually proceeds, and readers are never blocked by a writer; ending a transaction in any way, including a failed commit, releases the right to write exactly once.",
 ["schedules","fault_sequences"],"all interleavings of writers and readers, all ways of ending a transaction",
 "Tests start two writers with sleeps.",
 ["src/napr_db.c"],
 [("writer lock","src/napr_db.c:db_writer_lock, db_writer_unlock, napr_db_txn_begin")],
 [],["order of begin and end of write transactions"])
p("D07","Database: space freed by commits is reused, so the file stays bounded",
 "Repeatedly updating a fixed set of keys, with no read transaction left open, does not make the database file grow without bound: its size levels off within a small multiple of the live data. Pages still visible to a reader or holding live data are never handed out again, and every page is at all times either live in the newest state, recorded free, visible to some reader, or reserved.",
 ["histories","schedules"],"all long histories of updates, deletions and readers coming and going",
 "Tests run at most a few dozen transactions.",
 DB,
 [("free list keyed by transaction","src/napr_db.c:relocate_pages, write_free_db_entries"),("reclaiming below the oldest reader","src/napr_db.c:reclaim_pages; src/napr_db_tree.c:db_page_alloc")],
 [("free list","pages released per transaction","database file")],["file size and page accounting over long histories"])
p("D08","Database: opening recognises, creates or refuses, and never harms the file",
 "Opening a file shows the newest committed state whose meta page is intact: the last commit, or the one before when the newest meta page was damaged. With the create flag a missing or empty file, or one of two blank pages left by an interrupted creation, becomes an empty database. Everything else is refused: foreign files, files with no intact meta page, files too short, truncated below what their state needs, or larger than the map, and missing files without the create flag. A refused open leaves the file byte for byte as it was and holds neither file nor map; so does closing. Under a read-only open no write transaction succeeds and the file never changes.",
 ["inputs","histories","fault_sequences"],"every history of creating, committing, closing, damaging and opening; every combination of flags and map size",
 "Tests open one good file and one with a bad magic number.",
 ["src/napr_db.c"],
 [("file","src/napr_db.c:db_file_open"),("meta pages","src/napr_db.c:db_init_meta, select_live_meta, validate_meta_page"),("release","src/napr_db.c:napr_db_env_open, napr_db_env_close")],
 [],["result of opening, contents read, bytes of the file, descriptors and mappings held"])
p("K01","Cache: lookups return exactly the entry last stored for a path",
 "A cache lookup returns the size, times and checksum last stored for that path by a committed write (or earlier in the same write transaction), in this or any earlier session, and reports absence otherwise; storing again replaces. Aborted writes leave no trace.",
 ["histories","inputs"],"all histories of stores, commits, aborts, sweeps and reopenings over all path names",
 "Tests store a few entries in order.",
 ["src/napr_cache.c","src/napr_db.c"],
 [("upsert and lookup","src/napr_cache.c:napr_cache_upsert_in_txn, napr_cache_lookup_in_txn")],
 [],["results of cache operations across sessions"])
p("K02","Cache: a sweep removes exactly the entries not marked since the last sweep",
 "After a successful sweep the cache holds exactly the entries that were stored before it and whose path was marked since the previous sweep (or opening), with their values unchanged, and the marks are cleared. Marks made concurrently from several threads all count.",
 ["histories","schedules"],"all histories of stores, marks and sweeps, any number of entries, all interleavings of marking threads",
 "Tests sweep a few entries.",
 ["src/napr_cache.c","src/napr_db_cursor.c"],
 [("visited set under lock","src/napr_cache.c:napr_cache_mark_visited"),("cursor pass with deletions","src/napr_cache.c:napr_cache_sweep")],
 [("visited set","paths marked","src/napr_cache.c:struct napr_cache_t")],["contents after each sweep"])
p("K03","Cache: one process at a time, and the lock never outlives its holder",
 "While a process has a cache file open, every attempt by another process to open it fails with a busy error and changes nothing; after the holder closes the cache or dies, opening succeeds again and shows the committed contents.",
 ["schedules","crash_points","histories"],"all interleavings of opens, closes and deaths of several processes",
 "Tests try a single second open.",
 ["src/napr_cache.c"],
 [("exclusive lock file","src/napr_cache.c:napr_cache_open, napr_cache_close")],
 [],["results of opens from several processes"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
