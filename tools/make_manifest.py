#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from ffmon/meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ffmon.meta import META

COMMON = ("Assurance extends to the executions observed (counted in the evidence file); inputs are generated from VERIF_SEED by hostile "
          "generators. Trusted: the reference implementation in ffmon/ref.py (cross-checked with files made by the Rust implementation), "
          "numpy, CPython. ")
NOTE = {
    "C01": "Bit-exact comparison of every part with the generated values after write, eager load, mmap load and rewrite.",
    "C02": "Written bytes are judged by an independent strict parser, loaded values by an independent writer, so symmetric bugs show.",
    "C03": "Each file is probed with all loader functions; the first chunk of the kind or ValueError is demanded.",
    "C04": "All cut positions of small files and boundary positions of large ones, each with all loaders; a load must raise or be equal. "
           "A cut exactly before the optional trailing norms chunk is a complete file without norms for every reader and accepted.",
    "C05": "All cut positions of small files and all kinds of ragged lines; a load must raise.",
    "C06": "Real write failures injected by RLIMIT_FSIZE at enumerated byte positions and by /dev/full; the writer must raise or the file be complete.",
    "C07": "float64 sums with propagated float32 error bounds; known words bit-exact.",
    "C08": "Word lists, membership, indices, bounds and equality against the vocabulary model.",
    "C09": "Independent n-gram and hash implementations, checked against published FNV vectors.",
    "C10": "Native modules rebuilt with gcc AddressSanitizer and UndefinedBehaviorSanitizer; a report aborts the process and is a violation. "
           "Leaks: live bytes of the allocator over repeated calls. Only executed paths are judged; numpy and CPython are not instrumented.",
    "C11": "float64 reconstruction of the denoted matrix; exact without projection, error bounds with.",
    "C12": "numpy itself is the oracle; bit-exact.",
    "C13": "Brute-force float64 ranking; ties and near ties within the error bound may come in any order.",
    "C14": "As C13 with the error of the target vector propagated; null targets only determine count, eligibility and finiteness.",
    "C15": "Relation between source and result for every word, n-gram, row and sampled unknown words.",
    "C16": "Independent fastText reader/writer and float64 means with error bounds.",
    "C17": "Independent readers and writers of the three formats with error bounds; exact without norms.",
    "C18": "Malformed sequences of every class in every format, strict and lossy; CPython's decoder defines the replacement.",
    "C19": "Digest of the whole observable state before and after each call; results kept and compared later; threads compared with the "
           "sequential answers under a 1 us switch interval and with switches at chosen source lines (distinct interleavings are counted, not enumerated).",
    "C20": "Outputs of the real programs (in process and as subprocesses) parsed by the reference.",
    "C21": "Outputs of the real program judged against the source model.",
    "C22": "Every printed line judged as in C13 and C14.",
    "C23": "Every enumerated kind of inconsistency must raise; state snapshots before and after refused assignments.",
    "C24": "Single-field corruptions of files from the reference writer must raise in every loader concerned.",
    "C25": "Descriptors and mappings of the process after every call; files changed behind loaded objects; storages of more than 4 GiB (sparse files) "
           "under an address-space limit; allocated blocks over repeated calls (growth in every round is a leak).",
    "C26": "Damaged and random contents under RLIMIT_AS and a CPU limit; any exception is a refusal; whatever is returned is judged for consistency "
           "and by writing and loading it again.",
    "C27": "The same seeded scenario in separately started processes; only the listed environments are compared.",
    "C28": "All public attributes after every step of random histories, against the model.",
    "C29": "Positions and bytes compared with an independent writer.",
    "C30": "Results and files compared with those of a plain path.",
    "C31": "Copies judged against the model; one side changed in place and the other watched; other processes' answers and files compared.",
    "C32": "Faults injected by an LD_PRELOADed library into read, pread, fread and mmap of the loaded file, at every call of small files; the load "
           "must raise or equal the undisturbed one; short and interrupted reads must change nothing.",
    "C33": "Threads switched at randomly chosen source lines of the library by a deterministic scheduler (schedules are sampled, not enumerated), "
           "and by the interpreter's preemption; each result and file compared with the same call alone.",
    "C34": "An exception is raised at chosen Python lines of a running call (not inside native code); state, results, descriptors, mappings and "
           "process-wide state judged afterwards; clean-up code is not interrupted.",
    "C35": "Sizes that differ by a factor of 16 or 130, limits of three times (CPU time, best of several, measured again before it counts) or a fixed "
           "allowance (memory, bytes read); smaller deviations are not seen.",
}
checks = [dict(property=p, quick_cmd=f"bash check.sh {p}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p}",
               evidence_file=f"evidence/{p}.json", technique=m["technique"], level=m["level"], level_note=COMMON + NOTE[p])
          for p, m in sorted(META.items())]
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[],
           notes="No hooks in /repo: all monitors observe public behaviour, files, audit events and sanitizer reports. "
                 "Checks build a scratch copy of /repo's working tree in a temporary directory.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
