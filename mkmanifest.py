#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table of checks below.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = sys.argv[1:] or ["C%02d" % i for i in range(1, 26)]
FOREST = "Threads, locks and memory placement are simulated; the library and std's own lock code run for real."
NOTES = {
 "C01": "Every history of results is checked for linearizability against a sequential model of the forest, over randomly scheduled preemptions at any basic block. " + FOREST,
 "C02": "Equality, order and content of every handle is compared with the content it was created from, after every step of random interleavings. " + FOREST,
 "C03": "Deadlock is detected exactly (no simulated thread can run); livelock as a step budget far above any run seen. " + FOREST,
 "C04": "Panics are injected at random calls into the caller's comparison, clone, debug and iterator code; the history around them must be explained by whole or absent operations. " + FOREST,
 "C05": "Random mixes of refused cross-forest operations and ordinary ones on several forests, histories checked per forest. " + FOREST,
 "C06": "Listings are held partly consumed across other threads' changes, and must equal the state at one instant of the listing's history. " + FOREST,
 "C07": "Each rendered graph is parsed and must be, up to renumbering, the reachable part of the model at one instant of the linearized history. " + FOREST,
 "C08": "Verdicts are compared with an independent chart recognizer for random and classic grammars, one to four simulated threads sharing a forest, panics injected and retried.",
 "C09": "The returned forest is compared as a tree language, exactly, with the derivations of an independent chart parser.",
 "C10": "Trees returned earlier are compared with their oracle again after later, concurrent, rejected and interrupted parses.",
 "C11": "Scripted user-defined analyses with random dependencies, failures and panics; executions are counted and results compared by identity.",
 "C12": "As C11, with failures and panics decided by seed at every call and requests repeated afterwards.",
 "C13": "As C11, with random cyclic dependency graphs, tolerated and caught refusals; non-termination is a crash or step budget.",
 "C14": "Nullable, first-set and follow-set results are compared with independent computations after injected panics in comparison and clone code.",
 "C15": "Readers in several simulated threads over one stream, clone panics injected, every token read compared with the source.",
 "C16": "The whole pipeline is run under several simulated memory placements and its results compared with each other and a reference.",
 "C17": "Monotone step functions over generated lattices with panics injected at any call, restarted, and compared with an independent least fixed point.",
 "C18": "Random update histories with injected panics against a model of what must and may be recorded.",
 "C19": "Random histories of inserts, lookups, changes and merges over keys of eight types with injected comparison panics, against a model of what must and may be held.",
 "C20": "Scripts of additions are run through the builder with panics injected at any depth of the caller's build functions and in its comparison and clone code; the grammar or error that comes out is compared with what was added.",
 "C21": "Grammars are wrapped and freed of nullability in random sequences with panics injected in comparison and clone code; every result is compared with its definition, originals and earlier results are read again.",
 "C22": "Random histories on sets of dotted productions with panics injected in step functions, iterators and comparison code, against a model of what every set must and may hold.",
 "C23": "Grammars and their parts are printed onto destinations that fill up at a chosen byte, with panics in printing code; what is written is compared with an independent rendering or its beginning.",
 "C24": "Random histories over many ranges of several texts, with refused moves and cuts and panics in text sources; every range is read and compared with its part of the text after every operation.",
 "C25": "Random histories of names made, copied, changed, compared and stored, with panics in the middle of changes; every name and everything made with one is compared with a model of separate texts after every operation.",
}
NA = {
 "N08": "A sequential computation that this version leaves unfinished (the follow-set analysis and the state tables are stubs), and no caller code, time or I/O enters it.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./sim/build.sh",
 "checks": [{
   "property": p,
   "quick_cmd": "./check " + p,
   "thorough_cmd": "./check " + p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": "deterministic simulation with fault injection (seeded search over schedules, panics and memory placement)",
   "level": "exploration",
   "level_note": NOTES[p] + " Sampled, not exhaustive; sequentially consistent interleavings only.",
 } for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA.get(p, "Check not built yet.")} for p in props if p not in CLAIMED],
 "notes": "No hooks in /repo: scheduling points come from compiler instrumentation of the unmodified sources, and locks, allocation and threads are taken over at the system-call and allocator boundary. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
