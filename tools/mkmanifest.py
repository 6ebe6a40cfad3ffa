#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ specification checked with TLC; "
TW = TR + "runs of the real command validated as traces of the specification (TwinTrace.tla)"
C = {
 "F01": (TR + "Twin.tla model-checked, its worlds and boundary worlds replayed into the real command, outputs validated by TwinTrace.tla (clause sound)",
         "Design: exhaustive within 4 files, 2 sizes, 2 contents, any 2-valued checksum, any worker order. Code: every generated tree's output is judged by TLC; includes a build whose checksum is reduced to one bit, both read strategies, all chunk-boundary difference positions and sparse multi-gigabyte files. Trusts: TLC, the driver's output parser, gcc."),
 "F02": (TR + "Twin.tla model-checked, its worlds replayed into the real command, outputs validated by TwinTrace.tla (clause partition)",
         "Exact partition required on every tree tried: the model's worlds with checksum collisions, overlapping arguments, hundreds of sizes, many files of one size. Trusts: TLC, the parser, gcc."),
 "F03": (TW, "Random trees times random option combinations, judged by the declarative walk of World.tla; regexes are alternatives of literal prefix/suffix/infix/whole matches in many equivalent spellings; command lines respelled. Exploration, not exhaustive."),
 "F04": (TW, "Patterns cut from the tree's own paths and generalised, several nested ignore files, pairs of ignoring and re-including patterns over one deep tree, judged by the regex-free gitignore semantics of Ignore.tla. Exploration, not exhaustive."),
 "F05": (TR + "groups of differently executed runs compared by TwinTrace.tla (clause agree)", "15 executions per tree: threads, read strategy, argument order, output form, schedule perturbation, colliding checksum; the whole command also runs under the controlled scheduler."),
 "F06": (TW, "Every field of every document compared by TLC with the world (sizes, calendar time computed in TLA+, checksum from an independent copy of xxHash, names needing escaping)."),
 "F07": (TW, "Order, priority and exact bytes of the text report re-rendered in TLA+ and compared."),
 "F08": (TR + "Twin.tla with unreadable files model-checked; faults injected into the real command and runs validated by TwinTrace.tla", "11 fault kinds (open, stat, read at a byte position, vanish, shrink, opendir, mmap, short reads, unknown entry types, permissions as an unprivileged user, dangling links), up to 3 faults per run; faults are consistent during a run; hundreds of failing entries with few file descriptors."),
 "F09": (TR + "a run is a stuttering step of the file system (TwinTrace.tla, clause unchanged), checked on recorded runs", "Complete snapshots before and after plus a record of every changing libc call; run as an unprivileged user on a scratch tree."),
 "F10": (TR + "Image.tla (pairs below the threshold, extension filter); real image-mode runs, with a rounded distance so that exact thresholds are common, validated by ImageTrace.tla",
         "The distance function (libpuzzle) is trusted and taken as given: the check asks the library for the distances and the specification says which pairs follow. Exploration over generated image sets."),
 "F11": (TR + "Archive.tla; extractions by the real code from generated, damaged and write-limited archives validated by ArchiveTrace.tla",
         "tar (ustar, pax, gnu, cpio, ...), zip, 7z and compressed archives; members at every position, duplicates, links, directories, truncation at every block and flips; sequences of requests, threads, descriptor limits. libarchive is trusted."),
 "F12": (TR + "Size.tla defines the accepted grammar and the value; every short string over the grammar's alphabet and boundary values are given to the real parser, real command lines to the real binary, and judged by SizeTrace.tla",
         "Exhaustive for short strings and unit suffixes; whole command lines judged by the grammar Line; values where double precision would matter and leading blanks, signs, hex and exponent forms are left free."),
 "F13": (TR + "ProgressImpl.tla (workers, lock, counter) refines Progress.tla and is refuted without its lock; standard error of real runs, with faults, in image mode and under the controlled scheduler, validated by ProgressTrace.tla",
         "Trees with up to 6 unreadable files, both read strategies, perturbed and controlled schedules (sequential consistency). The wording of the messages is taken from the current tree."),
 "T01": (TR + "PoolImpl.tla refines ThreadPool.tla (TLC); the real pool is run under a controlled scheduler with every memory access a scheduling point and all distinct histories are validated by ThreadPoolTrace.tla",
         "Real code: bounded exhaustive depth-first, random and PCT schedules with spurious wake-ups, up to 4 workers. Memory model: sequential consistency."),
 "T02": (TR + "PoolImpl.tla checked for absence of deadlock and refinement; the real pool is run under a controlled scheduler, every schedule must end and every history is validated by ThreadPoolTrace.tla",
         "As T01; a schedule in which no thread can move is reported as a deadlock."),
 "S01": (TR + "HeapImpl.tla refines Heap.tla (TLC); every operation word up to a length and long random words are played into the real heap and judged by HeapTrace.tla; locked insertion under the controlled scheduler",
         "Exhaustive for words of 7 (9) operations over 3 ranks and all insertion orders of 6 (8) elements; sizes beyond every array growth up to 1030 elements."),
 "S02": (TR + "HashImpl.tla refines HashTable.tla (TLC); every operation word up to a length and long random words are played into the real table and judged by HashTrace.tla",
         "Hash functions from constant to well mixed, all fill factors 1 to 16, the string, file size and group tables of the repository."),
 "D01": (TR + "NaprDB.tla (contents as a function); histories of the real database, with every answer, validated by NaprDBTrace.tla",
         "Every insertion order of 5 to 7 page-filling keys, words of puts and deletes, and random histories over ten key/value size profiles across commits and reopenings; wide histories (> 65536 pages, > 65536 commits, deep trees)."),
 "D02": (TR + "NaprDBImpl.tla model-checked (CleanReopen); histories of the real database with all ways of ending transactions, failing system calls at every position and full maps validated by NaprDBTrace.tla",
         "Single faults (EIO, short write then EIO, ENOSPC) at each of the first calls of a commit."),
 "D03": (TR + "NaprDBImpl.tla model-checked (SnapshotIntact); long-lived readers with held pointers over many commits validated by NaprDBTrace.tla; threads under a controlled scheduler validated by NaprDBConcTrace.tla",
         "Real code: up to 139 readers at once, page reuse, every memory access of the database a scheduling point in part of the runs. Sequential consistency."),
 "D04": (TR + "NaprDBImpl.tla model-checked (CrashSafe: every subset of unsynchronised writes, torn meta page); crash images built from the journal of the real database's system calls and map stores, reopened by the real code, validated by NaprDBTrace.tla",
         "Every point of the journal; per point nothing, everything, each single write alone or missing, and random subsets with writes torn between sectors."),
 "D05": (TR + "NaprDB.tla (Moves); every short word of cursor movements over many tree shapes and long random words on the real database validated by NaprDBTrace.tla",
         "Cursors are not used across changes of their own write transaction (unspecified)."),
 "D06": (TR + "NaprDBConc.tla; threads with both lock modes run under a controlled scheduler on the real database, every distinct interleaving validated by NaprDBConcTrace.tla, a run that cannot continue is rejected",
         "Threads of one process; depth-first with 2 preemptions, random and PCT schedules; failing commits included. Writers in several processes are out of scope (see DESIGN.md)."),
 "D07": (TR + "NaprDBImpl.tla model-checked (Accounted); page reports read from the real file after every commit of long histories validated by NaprDBTrace.tla (Accounted, Spared, Reused, Level)",
         "The file format is read by an independent parser in the harness; slack constants for reuse and levelling off are generous."),
 "D08": (TR + "DBOpen.tla (life of a file: OnlyCommitted, LastIfIntact) model-checked; every kind of damage times every way of opening, and random lives of real files, validated by DBOpenTrace.tla",
         "Damage to the magic number, version or the whole of one or both meta pages, truncation, foreign and blank files, 7 flag combinations, 5 map sizes. Damage inside an otherwise valid meta page or data page is not detectable in this format and not claimed."),
 "K01": (TR + "Cache.tla (entries by path, marks, one transaction); histories of the real cache across sessions, with every answer, validated by CacheTrace.tla",
         "Every word of 4 (5) session steps over two paths; random histories over six kinds of path names up to hundreds of entries, failing commits, reopenings, paths at the length limit."),
 "K02": (TR + "Cache.tla; every subset of marks over several tree shapes and random histories of stores, marks and sweeps on the real cache validated by CacheTrace.tla; marking threads under a controlled scheduler",
         "Exhaustive over subsets of up to 7 (9) entries; random up to 500 entries, bulk up to thousands; sweeps with failing commits; every memory access of napr_cache.c a scheduling point in part of the runs."),
 "K03": (TR + "CacheLockImpl.tla model-checked (and refuted without each of its three precautions); several real processes stepped between system calls, killed at any of them, histories validated by CacheLockTrace.tla",
         "2 to 4 processes, scheduling at every system call of the cache, deaths at any point, files spoiled and mended between opens. Random exploration."),
}
X = os.path.join(V, "tools", "manifest_more.json")
if os.path.exists(X):
    C.update({k: tuple(v[:2]) for k, v in json.load(open(X)).items()})
LEVEL = {}
checks = []
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
for i in ids:
    if i in C:
        t, n = C[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
na = [dict(property=i, reason="check not built yet") for i in ids if i not in C]
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="One driver (check.py); specifications in spec/, bindings in lib/ and harness/. No hooks in /repo: every binding is by linking, interposition or the command line.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
