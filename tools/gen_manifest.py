#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("seeded simulation of client histories with allocation faults; products compared with a reference table of all assignments", "Up to 9 variables exactly, larger vtrees (hundreds of variables) at sampled assignments."),
 "C02": ("seeded simulation of client histories with allocation faults; Evaluate compared with reference sums", "Up to 9 variables exactly; larger vtrees against an independent log-domain evaluator."),
 "C03": ("seeded simulation of client histories with allocation faults; MPE compared with the maximum of the reference table", "Up to 9 variables exactly; larger vtrees against an independent maximiser."),
 "C04": ("seeded simulation of client histories with allocation faults; marginals compared with reference sums", "Up to 9 variables exactly; larger vtrees against an independent evaluator."),
 "C05": ("seeded simulation of client histories with allocation faults; counts, consistency and sizes compared with the reference support", "Up to 9 variables exactly; hundreds of variables against an independent big-integer count."),
 "C06": ("seeded simulation of request histories with collections and allocation faults; pointer identity compared with content identity", "Parameter resolution is sampled on both sides with a margin."),
 "C07": ("seeded simulation of histories with collections at every point, poisoned freed memory, and a counterfactual run of the same plan without collections", "A violation counts only if the same plan without the collections shows none."),
 "C08": ("seeded simulation of histories with collections and manager destruction under exact accounting of live allocations", "Memory obtained through operator new by the library; the closed SDD library's own malloc is not accounted."),
 "C09": ("seeded simulation of conversion histories with allocation faults; support compared with the truth table", "Up to 9 variables."),
 "C10": ("seeded simulation of compile histories and of CNF file reading under short reads, interrupted calls and read errors", "A truncated CNF file is itself a CNF file and is not required to be detected."),
 "C11": ("seeded simulation of learning histories with allocation faults, compared with counts over the data set", "Up to 6 variables."),
 "C12": ("seeded simulation with a recorded and replayed generator, faults in the generator and allocator", "Up to 6 variables."),
 "C13": ("seeded simulation in which the scheduler chooses every random draw, extreme ones included", "Proportions are decided by evenly spaced draws, not statistically."),
 "C14": ("seeded simulation of write, restart and read through a simulated file system with short and interrupted I/O", "Restart is a new simulated process; only files survive."),
 "C15": ("seeded simulation of full disks, I/O errors and crashes at chosen bytes of a simulated file system", "Positions are chosen at random and at token boundaries, not enumerated."),
 "C16": ("seeded simulation of several managers with transfers, collections and destruction in any order", "Up to 6 variables per manager."),
 "C17": ("seeded simulation with failing allocations and throwing generators at random points of every operation, and a counterfactual run without the faults", "Failures inside the closed SDD library (malloc, setjmp) are not injected."),
 "C18": ("seeded scheduler of simulated threads switching at allocation, I/O and draw points; transcripts compared with solo runs", "Switch points are the seams; data races between two seams within straight-line code are not interleaved."),
 "C19": ("seeded simulation of data files on a simulated file system with short reads, errors and crashes, against a reference multiset", "Data sets of up to a few hundred records."),
 "C20": ("seeded simulation of network files with short reads, read errors and truncation, against the reference network", "Networks of up to about ten variables."),
 "C21": ("seeded simulation of all compilation strategies with collections at every frequency, against the product of the factors", "Networks of up to nine variables with positive partition."),
 "C22": ("seeded simulation in which stubs of htd and KaHyPar return arbitrary legal answers and old files lie around", "htd and KaHyPar are stubs: their libraries are not part of the repository's build."),
 "C23": ("the tool's main runs as a simulated process on a simulated file system with I/O faults; output compared with the reference", "Up to 6 variables."),
 "C24": ("the tool's main runs as a simulated process with I/O faults and stubbed heuristics; its files are read back and compared", "Up to 6 variables and factors."),
 "C25": ("seeded simulation of vtree operation histories on shared source trees, against an independent tree model", "Trees of up to 9 leaves over arbitrary variable labels."),
}
NA = {"C26": "Addition, multiplication, division and comparison of two parameters are pure functions of two numbers: no scheduling, time, I/O, allocation, randomness or history takes part, so there is nothing for a simulator to control. (All other checks exercise the arithmetic inside whole operations.)"}
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p, "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: operator new, stdio and POSIX I/O, random generators and heuristic libraries are replaced at link time. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
