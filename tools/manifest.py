#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real code: all interleavings of its lock operations under a controlled scheduler (source-set DPOR; preemption bounding where stated)"
HIST = "explicit enumeration of all operation histories up to a depth on the real code (points, orders, layer words, settings), every reached state checked"
BOTH = SCHED + "; plus " + HIST
IO = "explicit enumeration of all bounded histories (points, orders, layer words, element types, settings) on the real code, every dump and way of reloading checked"
T_SCHED = "every interleaving of the listed 2-3 thread scenarios within the stated bound; locks as parking_lot's; atomics are not interleaved separately"
T_HIST = "exhaustive within the listed families of small histories; larger indexes are not explored"
CHECKS = {
 "C01": (SCHED, "model_checking", T_SCHED),
 "C02": (SCHED, "model_checking", T_SCHED + "; a deadlock or hang is seen as no enabled thread, a panic as a failed execution"),
 "C03": (BOTH, "model_checking", T_SCHED + "; " + T_HIST),
 "C04": (BOTH, "model_checking", T_SCHED + "; " + T_HIST),
 "C05": (HIST, "model_checking", T_HIST + "; every k and ef in 0..n+1 on a set of queries"),
 "C06": (HIST, "model_checking", T_HIST + "; every k and ef in 0..n+1 on a set of queries"),
 "C07": (HIST, "model_checking", T_HIST + "; every subset of ids as filter"),
 "C08": (BOTH, "model_checking", T_SCHED + "; lists of up to 6 queries scheduled, all lists of up to 3 queries over 3-4 distinct ones sequentially"),
 "C09": (SCHED, "model_checking", T_SCHED),
 "C10": (IO, "model_checking", T_HIST),
 "C11": (IO, "model_checking", T_HIST + "; element types of at most 4 bytes (8 byte types: recorded finding)"),
 "C12": ("explicit enumeration of all directory contents, dump modes and sequences of drawn names on the real code", "model_checking", "directories of up to a few other dumps; the random source of names is scripted"),
 "C13": ("fault enumeration on the real code: every failing byte, write and open, every crash point of the write history, every pair of truncation lengths", "fault_enumeration",
         "small dumps completely, dumps over several write buffers each byte alone (quick: a stride away from buffer boundaries); files keep prefixes of what was written"),
 "C14": ("explicit enumeration of all ordered pairs of (element type, distance) of dump and reload on the real code", "model_checking", "the listed element types and distances"),
 "C15": (IO.replace("every dump and way", "rewritten in formats 2, 3 and 4 by an independent encoder, every way"), "model_checking", T_HIST + "; trusts the encoder of the old formats in mc/src/iochk.rs"),
 "C16": (IO, "model_checking", T_HIST),
 "C17": ("explicit enumeration of the random source: the draws are controlled, every layer boundary is located by bisection over all draws for all settings, on the real code", "model_checking",
         "assumes that the layer is a monotone function of one draw between the located boundaries, which is sampled on a fixed grid as well"),
 "C18": (BOTH, "model_checking", T_HIST),
 "C19": ("explicit enumeration of all bounded call sequences through the C interface, the trait and the slice calls against the core calls on the real code", "model_checking",
         "up to 5 points, all groupings of insertions into calls, every offered (type, distance) pair"),
 "C20": (BOTH, "model_checking", T_SCHED + "; " + T_HIST + "; reloaded indexes by counting the bytes in use"),
 "C21": (IO + "; original and reloaded index continued in lock step", "model_checking", T_HIST),
 "C22": ("explicit-state model of the algorithm explored in lock step with the real code: every history of the families is replayed on both and every state compared", "model_checking",
         T_HIST + "; the model (mc/src/model.rs) is written from the documentation and the paper, in the variant of this crate"),
 "C23": (SCHED, "model_checking", T_SCHED + "; the files are looked at after the dump has returned"),
 "C24": ("explicit enumeration of sequences of operations on the real code: all placements of reading operations between the insertions of all small histories, each compared with the history alone", "model_checking", T_HIST),
 "C25": ("explicit enumeration of all interleavings of pairs of operation words on two indexes on the real code; plus " + SCHED, "model_checking", T_SCHED + "; words of 3 operations, four pairs of indexes"),
}
NA = {}
def main():
    ps = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in ps:
        i = p["id"]
        if i in CHECKS:
            t, l, n = CHECKS[i]
            checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique=t, level=l, level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the harness crate mc/ replaces the lock, thread pool and random source dependencies by [patch] entries and interposes libc calls.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
