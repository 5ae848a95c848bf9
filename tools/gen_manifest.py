#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

GEN = "generated, boundary and stress inputs sampled from VERIF_SEED; nothing is enumerated exhaustively"
T = {
 "C01": ("runtime monitor: brute-force reference oracle over every observed split search",
         "Every (column, value) candidate is rescored independently for each search."),
 "C02": ("runtime monitor: row conservation through leaf-level recording calculators",
         "Each leaf records the rows it was given; the trace is compared with the training rows."),
 "C03": ("runtime monitor: node-by-node replay of tree growth against the stopping rule",
         "Each leaf and split of each grown tree is judged with the reference search."),
 "C04": ("runtime monitor: independent routing and rescoring of every prediction",
         "Includes hand-made trees."),
 "C05": ("runtime monitor: differential runs over thread pools of 1 to 16 threads with injected delays",
         "Schedules are sampled by delays and pool sizes; distinct recorded split-search orders are counted."),
 "C06": ("runtime monitor: differential tree comparison, pre-sorted against plain",
         "Differences are allowed only where the two splits tie to rounding."),
 "C07": ("runtime monitor: permutation and routing checker over every partition call",
         "Rows carry identities, so loss, duplication and reordering are visible."),
 "C08": ("runtime monitor: column and sorted-view invariants checked against the source rows",
         "The views are compared value by value with the source rows."),
 "C09": ("runtime monitor: generated files against an independent reader, and malformed files",
         "Files live in a scratch directory that is removed."),
 "C10": ("runtime monitor: replay of every boosting iteration from recorded residuals",
         "Residuals are recorded at the split search of the real trainer."),
 "C11": ("runtime monitor: replay of every multi-class boosting iteration",
         "Residuals are recorded at the split search of the real trainer."),
 "C12": ("runtime monitor: replay of every approximate boosting iteration",
         "Residuals are recorded at the split search of the real trainer."),
 "C13": ("runtime monitor: independent recomputation of every ensemble prediction",
         "Trained and hand-made ensembles."),
 "C14": ("runtime monitor: independent recomputation of every ensemble score",
         "Trained and hand-made ensembles."),
 "C15": ("runtime monitor: prefix comparison between trainings of different length",
         "Trees are compared exactly."),
 "C16": ("runtime monitor: online monotonicity checker over the training-error series",
         "Learning rates in (0, 2)."),
 "C17": ("runtime monitor: finiteness assertions on every number of trained models and predictions",
         "Includes long trainings, high learning rates and extreme scores."),
 "C18": ("runtime monitor: metamorphic comparison under relabelled, permuted and rescaled data",
         "Near-tied splits are recognised and not blamed."),
 "C19": ("runtime monitor: parser over the captured standard output of print_tree",
         "The printing process is a child with captured output."),
 "C20": ("runtime monitor: element-wise reference oracle for every vector helper",
         "Compared to a few ulps, or exactly where one rounding is involved."),
 "C21": ("runtime monitor: the built binary run on generated data sets, its printed error recomputed",
         "The binary runs in a scratch working directory."),
 "C22": ("sanitizers: ThreadSanitizer, AddressSanitizer, MemorySanitizer and Miri over training workloads",
         "Covers the executions run; reports are blamed on the project only if a frame of the access is in its code."),
 "C23": ("runtime monitor: reference oracle for every leaf output formula",
         "Leaf calculators called directly and through trees."),
 "C24": ("runtime monitor: node-by-node comparison of trees grown under several depth limits",
         "All tree kinds and, for ensembles, limits that no tree reaches."),
 "C25": ("runtime monitor: counting allocator and /proc census of a process that repeats sessions",
         "Growth counts only if it appears in both halves of a run and again in a run twice as long."),
 "C26": ("runtime monitor: cross-comparison of learners whose definitions coincide",
         "Splits that tie up to rounding are recognised by the oracle and not blamed."),
}
SKIP = set()
if not os.path.exists(os.path.join(HERE, "checks", "sanitizers.py")):
    SKIP.add("C22")

checks = []
for p in sorted(T):
    if p in SKIP:
        continue
    tech, note = T[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 checks/run.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": tech,
        "level": "exploration",
        "level_note": note + " Assurance covers the executions observed: " + GEN + ". Trusts the oracle in /verif/harness and the toolchain.",
    })
m = {
    "version": 1,
    "setup_cmd": "python3 checks/setup.py",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check being built"} for p in sorted(SKIP)],
    "notes": "No hooks were needed: recording and delays enter through the public function pointers "
             "SplitFinder::find_best_split and LeafOutputCalculator::calculate_leaf_output. "
             "All bins rebuild the three library crates from /repo's working tree on every run.",
}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
