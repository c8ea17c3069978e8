#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Edit here, then rerun."""
import json, os
LEVEL = {k: "fault_enumeration" for k in ("C23", "C24", "C28")}
EX = "bounded exhaustive exploration of the real code "
T = {
 "C01": (EX + "over all line sequences of the scope automaton, against a reference automaton", "every sequence within the depth bound is loaded; trusts the 60-line reference automaton"),
 "C02": (EX + "over malformed inputs and group graphs, each run in watched worker processes", "no panic, abort, stack overflow or hang on any enumerated input; says nothing about inputs outside the listed spaces"),
 "C03": (EX + "over placements of trivia and line ends, differential against the plain text", "bit-exact comparison with the same code's result on the plain text"),
 "C04": (EX + "over key/value line sequences, against a reference map", "keys and values are drawn from a fixed alphabet"),
 "C05": (EX + "over face-line dialects and field texts, against a reference decoder", "the decoded meaning is observed through corners, UVs and colours"),
 "C06": (EX + "over all id/group graphs of up to 4-6 entities, against a reference forest", "where ids repeat or links are circular only presence, order and finiteness are judged"),
 "C07": (EX + "over entity trees x placements, against a reference position model", "tolerance grows with coordinate size"),
 "C08": (EX + "over layer configurations x texture patterns, against a reference partition", "layers with the same texture twice are left out"),
 "C09": (EX + "over property kinds x value texts x class sequences, against a reference decoder", "value texts are drawn from fixed alphabets"),
 "C10": (EX + "over definitions x brush counts x definition orders, against a reference tree", "two definitions of one classname are left out"),
 "C11": (EX + "over texture assignments x blacklists, against a reference partition of faces", "faces are matched by their geometry"),
 "C12": (EX + "over attribute coincidences, differential against unmerged meshes", "the expected corner attributes come from the same code with one texture per face; C13-C17 check those"),
 "C13": (EX + "over families of convex brushes, against an exact integer polytope model", "needle-like solids are left out; tolerance 1e-3 to 2e-2"),
 "C14": (EX + "over families of convex brushes, checking closedness, winding, coverage and volume", "invariants on every mesh, volume from the exact model"),
 "C15": (EX + "over mapping parameters x face orientations, against the formulas in double precision", "non-zero scales"),
 "C16": (EX + "over brushes x phong switch x angle texts, against the sum formula", "corners of more than three faces are not judged under phong"),
 "C17": (EX + "over face orientations x mapping parameters, against the gradient of the UV formula", "non-axis-aligned standard faces are not judged (as stated)"),
 "C18": (EX + "over brush sets x hosts, against the exact polytope model", "tolerance as C13"),
 "C19": (EX + "over all call histories up to the bound x interposed hash seeds", "hash seeds are owned through an interposed getrandom; results compared bit for bit across processes"),
 "C20": (EX + "over sequences of entities and brushes, differential against each alone", "pieces come from fixed corpora"),
 "C21": (EX + "over WAD layouts, against the data the file was built from", "sizes are multiples of 8, as the format needs"),
 "C22": ("preemption-bounded schedule exploration of the real thread pool through interposed file operations and allocations", "rayon-internal stealing between scheduling points is not controlled; free runs on pools of 1-8 threads complement"),
 "C23": ("exhaustive enumeration of single faults and pairs at interposed system calls of the real code", "faults are injected at libc calls (open, read, lseek, ...)"),
 "C24": ("exhaustive enumeration of truncations and field corruptions of WADs, against a reference reader", "fields nothing depends on may give an error or the exact textures"),
 "C25": (EX + "over directories x name lists, against the sub-sequence of the unfiltered result", "names are in stored (lower) case"),
 "C26": (EX + "over indices x levels x palettes, against direct lookup", "all 256 indices at every level"),
 "C27": (EX + "over definitions, reading the text back with an independent FGD parser", "texts without quotes and line breaks, which the format cannot express"),
 "C28": ("exhaustive enumeration of single faults, pairs and runs at interposed system calls of a save", "errors of close are not observable through std"),
 "C29": (EX + "over definitions, closing the loop from FGD default text through a map to the loaded value", "colour defaults are multiples of 1/255"),
 "C30": (EX + "over pairs of line sequences, against a reachability search and a reference LCS", "line content is drawn from a small alphabet of every kind of line"),
 "C31": (EX + "over brushes x idle planes and brushes without faces, against the exact polytope model of the brush without them", "planes whose integer points are out of reach are left out; tolerance as C13"),
 "C32": (EX + "over subsets and sequences of planes of every odd kind, checking invariants of the result", "invariants only: what a malformed brush should look like is not judged"),
 "C33": (EX + "over additions to a configuration, the tree being compared bit for bit with the one without them", "names with upper-case letters are not added to texture lists"),
 "C34": (EX + "over arrangements of an entity's lines, the tree being compared bit for bit with that of the plain arrangement", "keys are distinct (C04 covers repeated ones)"),
 "C35": ("preemption-bounded schedule exploration of the real code: two caller threads under a controlled scheduler that switches at interposed file operations, output and allocations", "exhaustive for one preemption everywhere and two at file operations and output; no switches between two plain memory accesses"),
 "C36": ("exhaustive enumeration of call sequences and single file faults on the real code, auditing descriptors, threads, directory, environment and live memory after each call", "memory growth is judged over hundreds of identical calls; what a process sets up once is not a leak"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": [],
  "notes": "All checks run one harness (mc/, a crate with a path dependency on /repo) that drives the public API of the real code through an exhaustive choice-tree explorer. No hooks in /repo are needed: system calls, allocations and hash seeds are interposed from the harness binary. check.sh rebuilds the harness against /repo's working tree on every run."}
for i in ids:
    t, n = T[i]
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": LEVEL.get(i, "model_checking"), "level_note": n})
assert set(T) == set(ids)
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
