#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list below.
import json
TR="Trusted: the reference model in /verif/harness/src (its own numerics), the forked exhaustive driver, rustc."
ENUM="explicit-state bounded model checking: exhaustive enumeration of a small-scope input space, each case run on the real code in lockstep with a reference model"
N={
"D01":"Every small table over an alphabet of number spellings, file style and header form, written to a scratch file and read back; every single-cell corruption and every pair of files of different lengths must fail. Cells outside the alphabet and tables beyond the bounds are only covered by the structured family.",
"D02":"Every class assignment over K classes for small row counts plus all short sequences with labels that are no class (too large, negative, fractional, infinite, NaN); structured sizes beyond.",
"D03":"Every weak ordering of small columns over six value alphabets incl. infinities, signed zeros, subnormals; structured sizes up to thousands of rows.",
"D04":"Every small data set x every question at, between and beyond its values; successive partitions explored as a state space of row sets.",
"D05":"State space of row sets reachable by sequences of splits explored to a depth bound from every small sorted data set; every question tried in every state.",
"D06":"All small vectors over an alphabet for every helper, all length mismatches, structured long vectors.",
"S01":"Every small data set; the returned question and gain compared with an independent centred-sum computation over all candidate questions, up to rounding.",
"T01":"Every small data set x level limit x builder, structured data of many sizes and magnitudes, chains up to 300 levels, the repository's data files; the trained tree (regression, boosting and approximate) is walked in lockstep with the model's state space of (row set, level).",
"T02":"Every small data set; both builders' trees walked in lockstep over the model's states. After a rounding-level tie the subtrees are not compared.",
"T03":"Every small data set, all level limits up to n, regression and boosting trees; each tree is compared with the truncation of the next.",
"T04":"Every small data set x every column map, row, column and target permutation, repetition and power-of-two scaling in the bounds; data with ties are excluded from permutations as the property says. Trees and short runs of all three ensembles.",
"T05":"Every binary tree shape up to six leaves with every question assignment of the alphabet, printed and parsed back.",
"E01":"Every small leaf content and tree shape built through the public constructors, every small test set; plus trained trees.",
"L01":"Every small residual set over an alphabet of values in [-1,1] incl. extremes and subnormals for all leaf kinds.",
"B01":"Every small data set x level limit x iterations x rate x builder; the ensemble is replayed as the model's stagewise state machine (scores, residuals), each tree walked in lockstep. Comparison up to rounding. Up to 10001 (70000) rows and 1025 iterations in structured families.",
"B02":"As B01 with softmax residuals. A leaf whose divisor is within rounding of zero only has to be finite.",
"B03":"As B02 with the approximate leaf vector. A leaf whose divisor is within rounding of zero only has to be finite.",
"B04":"Error after every iteration, by model scores and by the library's score, for every small data set; rounding allowance relative to label magnitude.",
"B05":"Every small class assignment, up to 120 (400 thorough) iterations, three rates; scores followed through every iteration, predictions asked at a fixed schedule of iterations.",
"B06":"Every model of small spaces x every test-set sequence over a pool up to a length bound.",
"R01":"Every small data set over alphabets with infinities, signed zeros, subnormals and labels up to 1e150, every table shape up to a bound and degenerate tables, through every learner, predictor and scorer; a watchdog reports calls that do not return. Trees of more than a few hundred levels are not explored (recursion depth).",
"B07":"Every small data set: histories of trainings with n and all k<=n iterations compared tree by tree, on one pool thread (C03 covers schedules).",
"H01":"Every sequence of two calls over 171 calls (failing ones among them), of three over a smaller one (the full one thorough), of four (thorough), each in its own forked process, results compared with the call in a fresh process; repeated calls up to 70 (1100).",
}
SCHED="stateless model checking of the real code: all schedules up to a preemption bound under a deterministic scheduler inside rayon-core"
CT=" Sequentially consistent interleavings only. The pool's own queues, latches and sleeping are replaced by equivalents under the scheduler (trusted), rayon's iterators and everything in /repo run as compiled. Trusted: /verif/sched, validated by programs with known faults (p_probe)."
C={
"C01":"Small data sets: all schedules within the preemption and deviation bounds around three kinds of base schedule; large data sets and pools up to 16 workers only around the base schedules."+CT,
"C02":"Tied, mirrored and duplicate columns; all schedules within the bounds for up to 4 workers, base schedules for up to 16."+CT,
"C03":"Ensembles of 1 to 3 trees; all schedules within the bounds on small data, one deviation on data of up to 2100 rows."+CT,
"C04":"2 or 3 application threads with 1 or 2 calls each over 1 or 2 workers (every two of 33 calls, failing ones among them), all schedules within the bounds, compared with the same calls made one after the other."+CT,
}
checks=[]
for k,v in N.items():
    checks.append(dict(property=k,quick_cmd=f"bash /verif/check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough bash /verif/check.sh {k}",technique=ENUM,level="model_checking",level_note=v+" "+TR))
for k,v in C.items():
    checks.append(dict(property=k,quick_cmd=f"bash /verif/check.sh {k}",thorough_cmd=f"VERIF_TIER=thorough bash /verif/check.sh {k}",technique=SCHED,level="model_checking",level_note=v))
na=[dict(property=k,reason="check under construction") for k in ("C01","C02","C03","C04") if k not in C]
json.dump(dict(version=1,setup_cmd="bash /verif/setup.sh",checks=checks,not_applicable=na,notes="No hooks in /repo: every check uses the public API. Exit 2 = the check could not be built or run."),open("/verif/MANIFEST.json","w"),indent=1)
