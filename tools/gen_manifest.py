#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
INFO = {
 "C01": ("exploration", "history monitor over generated write/read histories; oracles: own SHA-1, exact bytes, git cat-file",
         "Random histories; every read is compared byte for byte. Trusts the own SHA-1 and zlib decoder, both compared with git in the run."),
 "C02": ("exploration", "runtime monitor on interposed system calls: actors run inside each other's system calls, seeded scheduler, real processes; history oracle",
         "Every preemption point of the write path at depth one, sampled beyond. Assumes preemption matters only at system calls (the TSan run of C18 covers shared memory)."),
 "C03": ("fault_enumeration", "crash and errno injection at every interposed system call of a write; absent-or-complete oracle, recovery oracle",
         "Every call of each scenario is a crash point and an error point. Process crashes, not power loss."),
 "C04": ("exploration", "reference monitor: generated and git-made packs read in seeded orders and compared with ground truth",
         "Sampled packs. The pack builder is compared with git index-pack in the run."),
 "C05": ("exploration", "model-based history monitor: set model of the repository against reads",
         "Sampled histories of adding objects in all places over several handles."),
 "C06": ("exploration", "repack steps executed inside interposed system calls of a read; must-succeed oracle",
         "All placements at one and two points, then sampled; one repack during one read."),
 "C07": ("exploration", "crash/hang/allocation monitors over mutated repositories (panic hook, allocation, event and CPU budgets, supervisor; ASan in thorough)",
         "Exhaustive truncations and byte changes of small files, field-aware boundary values, then random. Proportional: 64 MB per call on inputs of a few KB."),
 "C08": ("exploration", "reference decoder as online oracle over mutated repositories",
         "Same corpus as C07; every successful read must equal what the reference decoder finds in the damaged bytes."),
 "C09": ("exploration", "damaged packs beside intact ones, intact objects monitored for exact content",
         "All kinds of damage in the list, sampled positions."),
 "C10": ("exploration", "generated and git-made commits, accessors compared with ground truth",
         "Sampled commits over a field-wise generator whose output git re-reads in the run."),
 "C11": ("exploration", "generated identity lines, accessors compared with ground truth",
         "Sampled; the generator's stripping rule is compared with git in the run."),
 "C12": ("exploration", "generated and git-made tags, accessors compared with ground truth", "Sampled tags; git mktag / cat-file agree in the run."),
 "C13": ("exploration", "generated trees and every cut of them, entries compared with ground truth", "Sampled trees; git ls-tree / mktree agree in the run."),
 "C14": ("exploration", "generated reference stores, lookups and peels compared with a resolver model that git checks",
         "Sampled stores, loose and packed; chains deeper than git follows are not judged."),
 "C15": ("exploration", "generated reference stores, listings compared with the model and git for-each-ref", "Sampled stores."),
 "C16": ("exploration", "interposed open/stat calls recorded and judged: no path outside the git directory",
         "Sampled hostile names and targets; symbolic links on disk are not followed out of the repository by this harness."),
 "C17": ("exploration", "ids and abbreviations compared with a byte-level model", "Structured and random ids."),
 "C18": ("exploration", "ThreadSanitizer, seeded scheduler at system calls, dead-lock monitor; lone-reader oracle",
         "Sampled schedules; TSan sees the races of the executions it ran."),
 "C19": ("fault_enumeration", "errno, short-read and EINTR injection at every interposed system call of a read; recovery oracle",
         "Every call of each scenario x errno list. Faults inside memory-mapped access are out of reach."),
 "C20": ("exploration", "file-system snapshots and mutation events around every call, compared with the exact allowed difference",
         "Sampled mixed workloads."),
 "C21": ("exploration", "reference updates of another process executed step by step inside interposed system calls of lookups and listings; window oracle over the history of states; real git processes beside looping readers",
         "Sampled histories and placements over the steps of git's files backend; packed and loose references."),
 "C22": ("exploration", "resource monitor: open files, mappings, threads, files and live heap sampled over doubling numbers of identical rounds, with injected faults",
         "Sampled rounds; growth at every one of four doublings counts as growth without end. Allocations of the calling thread only."),
 "C23": ("exploration", "opens of about 30 kinds of paths judged by stat(2), reads that only the right repository can answer, interleaved histories over several repositories",
         "Sampled paths and histories; runs as root, so permission errors are injected, not real."),
 "C24": ("exploration", "history monitor over many held readers and objects at once: exact bytes at every read, unchanged contents at every look",
         "Sampled histories of up to 200 steps with up to ten readers and ten objects held."),
 "C25": ("exploration", "debug texts, copies, comparisons and error texts of generated objects and references, and the output and exit status of the example programs run as processes, against the accessors' values",
         "Accessors are taken as right (C10-C14 decide that); only values and their labels are looked for, not the layout."),
}
try:
    exec(open(f"{here}/tools/manifest_extra.py").read())
except FileNotFoundError:
    pass
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "none", "enable": "no hooks: file operations are interposed by symbol in the harness binary", "source_commits": []},
 "checks": [{
    "property": i,
    "quick_cmd": f"./run.sh {i} quick",
    "thorough_cmd": f"./run.sh {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": INFO[i][1], "level": INFO[i][0], "level_note": INFO[i][2],
 } for i in ids],
 "not_applicable": [],
 "notes": "vmon replay FILE re-runs the case of a VIOLATION line (target/main/debug/vmon). Findings: known_findings.txt.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
