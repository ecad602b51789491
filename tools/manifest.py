#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

X = "exploration"
F = "fault_enumeration"
TRUST = ("Assurance covers the executions observed (counts in the evidence file), not all inputs. "
         "Trusts the harness' reference model (written from FORMAT.v1.rst and hash.sh) and the RustCrypto hashers, "
         "which it calls directly. ")

C = {
 "C01": (X, "runtime monitor: scans of generated trees judged against the tree that was built",
         "Every scan (1-8 threads, all hash types, readdir order and d_type varied by a libc shim) of a random hostile tree is compared line by line with an index computed by an independent model from the generator's own record of the tree."),
 "C02": (X, "runtime monitor: digests of scanned files recomputed by an independent model",
         "Digest lists of files at block boundaries, sparse and large files are recomputed from the generated bytes by separate code; K1 (blake3 state never reset) is matched exactly, anything else is a violation."),
 "C03": (X, "runtime monitor: byte-level grammar and order checker over recorded index text",
         "An online checker of the grammar reads every byte written by scans of trees with hostile names and sorts names and directories itself."),
 "C04": (X, "runtime monitor: footer recomputed from the bytes the sink actually received",
         "The footer of every index written by scans (with/without threads and progress, short-writing sinks) and by the emitter is recomputed over the recorded bytes."),
 "C05": (X, "runtime monitor: differential runs of the same tree under perturbed schedules, orders and builds",
         "Each tree is scanned many times under varied thread counts, queue sizes, injected delays, readdir orders, d_type absence, read chunking, concurrent scans and the --no-default-features build; all outputs must be byte-identical and equal to the model's."),
 "C06": (X, "runtime monitor: round-trip oracle over scanned trees and generated canonical texts",
         "What the parser returns is compared with the generator's own record, not with the writer's output."),
 "C07": (F, "runtime monitor: parse/emit round trip with enumerated sink faults",
         "Byte equality of the re-emitted index for generated indexes of each hash type; the write error is injected at every write call (or a sample of them for long indexes) and short writes of every size class are enumerated."),
 "C08": (X, "runtime monitor: panic, step-count and allocation monitors over mutated and hostile index bytes",
         "A counting allocator, a step bound and catch_unwind observe every public operation on grammar-aware mutants, hostile numbers and random bytes; aborts are caught by running cases in child processes."),
 "C09": (F, "runtime monitor: enumerated truncations and format damages against a reference reader",
         "Every cut position of an index (all of them for short indexes) and each listed kind of damage at each line; the error's line number and the entries before it are compared with a reference reader that leaves a documented free zone."),
 "C10": (X, "runtime monitor: order-axiom checker over recorded comparisons and scan order",
         "All pairs and triples of generated kinds are compared against a reference order and checked for the axioms; entries of scans are sorted and compared with the file order."),
 "C11": (X, "runtime monitor: history checker of next/advance calls against a sequential specification",
         "Random call histories on generated ordered indexes are replayed on a list model; every returned entry is compared with it."),
 "C12": (X, "runtime monitor: conservation and grouping checker over merge histories",
         "Groups returned by merges of up to 6 related indexes, mixed with advance calls, are compared with a list model; each entry must come out exactly once."),
 "C13": (F, "runtime monitor: verification of damaged streams under enumerated read faults",
         "Streams equal to the content or differing in a chosen bit, byte, block order or length, delivered in varied chunks with interruptions, are judged by plain byte comparison; a read error is injected at enumerated calls. K1 matched exactly."),
 "C14": (F, "runtime monitor: digest lists of streams recomputed independently under enumerated read faults",
         "Digest lists, lengths and accessors are compared with a model over chunked, interrupted and failing readers. K1 matched exactly."),
 "C15": (F, "runtime monitor: identifier extraction under enumerated truncations, chunkings and read faults",
         "Every truncation of an index and damaged headers and footers; the value returned is compared with the last line parsed independently."),
 "C16": (F, "runtime monitor: write failure injected at enumerated points of a scan, output checked as prefix",
         "The sink fails at (a systematic sample of) every byte position and every write call, stops accepting, interrupts or shortens writes; accepted bytes are compared with the undisturbed index; hangs are caught by a watchdog."),
 "C17": (F, "runtime monitor: system-call failure injected at enumerated calls through an interposed libc",
         "Each open, listing, stat, readlink and read of the scan is failed in turn (several errnos, short and interrupted reads) through a symbol-interposing shim; the result must be an error of the right kind carrying the errno."),
 "C18": (X, "runtime monitor: trace specification over recorded system calls of a scan, with hostile exchanges",
         "Every path-related libc call is recorded by the shim and judged (no write flags, no open of special files, descriptors stay inside the sources by device and inode), while files and directories are exchanged for symlinks at recorded points of the scan."),
 "C19": (X, "runtime monitor: heap, descriptor, thread and look-ahead meters during scans and reads",
         "A counting allocator, the shim's table of open descriptors, /proc/self and a blocking sink measure usage against bounds computed from the tree's shape and the configuration."),
 "C20": (X, "runtime monitor: scans of trees changed at injected points, judged by the history of the tree",
         "A mutator acts at chosen system calls of the scan; the checker accepts an error or a well-formed index whose untouched entries are right and whose others existed at some time. K4 matched exactly."),
 "C21": (X, "runtime monitor: the built command-line tool run over argument, output and failure workloads",
         "The real binaries (with and without thread support) are run as child processes; stdout, output file, stderr and exit status are compared with the library's index. K5 matched exactly."),
 "C22": (X, "AddressSanitizer, ThreadSanitizer and Miri on scan, read, merge, emit and hash workloads",
         "ASan and TSan (with an instrumented standard library) run stress workloads with real files and error paths; Miri runs many seeds of schedules over a mock file system, with stacked or tree borrows for the single-threaded operations. The aliasing model is off where futures 0.1 itself breaks it."),
 "C23": (F, "runtime monitor: reads of the same index under varied chunking, interruptions and enumerated read faults",
         "All readers' outputs for one index are compared with those of a plain read; a read error is injected at enumerated calls and must be returned with its cause."),
 "C24": (X, "runtime monitor: reports on standard error judged as a trace against the index, on a controlled clock",
         "Every report printed while a scan runs on the harness' clock is parsed and its counts must be those of a prefix of the index; failing scans and unusable standard errors are workloads too."),
 "C25": (X, "runtime monitor: differential runs of hash.sh and standard tools against scans",
         "The repository's own shell procedure, with openssl, shasum and b2sum, computes the index a second time; blake3 has no shell tool here."),
 "C26": (X, "runtime monitor: results of operations in permuted, nested, interleaved and concurrent histories compared with those alone",
         "Each operation's full result is recorded alone and again in other histories; any difference is a violation."),
 "C27": (X, "runtime monitor: metamorphic comparison of the indexes of families of trees",
         "Single changes of covered and uncovered parts are made to a tree; indexes and identifiers must differ or agree accordingly, pairwise."),
 "C28": (X, "runtime monitor: differences found by merge, check_file and advance compared with those of the real trees",
         "The differences are also applied to a copy of the first tree, and its scan must give the second index."),
 "C29": (X, "runtime monitor: libc calls, allocations and processor time of operations metered against the size of their input",
         "The calls of each scan are counted against its tree; operations run on inputs of ten shapes and on eightfold ones, whose costs must stay in proportion (with a factor of three to spare for processor time)."),
 "C30": (X, "runtime monitor: scans by configs of random call histories compared with a model of the settings",
         "Index, standard error and the threads at work are compared with what the last call of each setter says; workers are held until as many are at work as were set."),
}

ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
assert sorted(ids) == sorted(C), set(ids) ^ set(C)
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": [{
        "property": i,
        "quick_cmd": "./check.sh run " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh run " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": C[i][1],
        "level": C[i][0],
        "level_note": C[i][2] + " " + TRUST.strip(),
    } for i in sorted(ids)],
    "not_applicable": [],
    "notes": "No hooks in /repo: the library is observed through its public API, the sinks and readers given to it, "
             "an allocator and an interposed libc. Commits in /repo are repairs only (see known_findings.txt).",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
