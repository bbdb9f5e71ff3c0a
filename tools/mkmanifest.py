#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks which exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
DEFAULT = "bounded exhaustive model checking of the implementation: every {} within the bounds is run on the real code and compared with a reference model"
TECH = {
    "C01": DEFAULT.format("key set and order"),
    "C02": DEFAULT.format("string key set, order and hash function"),
    "C03": DEFAULT.format("assignment of hash codes to keys, for all key types"),
    "C04": DEFAULT.format("value list and probe"),
    "C05": DEFAULT.format("word with repeated keys"),
    "C06": DEFAULT.format("key list and hash function (construction only, memory and time bounded)"),
    "C07": DEFAULT.format("constructor, order, hasher and iterator size hint"),
    "C08": "explicit-state exploration of all write/read operation sequences to a depth on the real maps, against a reference state",
    "C09": "exhaustive enumeration of all key tuples, then all reads, on the real maps, against a reference state",
    "C10": "explicit-state exploration of iterator states: every call sequence to a depth at every position",
    "C11": "explicit-state exploration of iterator states: every call sequence to a depth at every position",
    "C12": "exhaustive enumeration of all pairs of subsets and set kinds on the real code, against set theory",
    "C13": "explicit-state exploration of iterator states over all pairs of subsets and set kinds",
    "C14": "exhaustive enumeration of all pairs of subsets and set kinds on the real code, against set theory",
    "C15": "exhaustive enumeration of all pairs of small contents, hashers and orders on the real code",
    "C16": "explicit-state exploration of clone/write/drop sequences on the real code",
    "C17": "fault enumeration within stateless exploration: every operation history, with a panic at every user-code call, drop ledger as monitor",
    "C18": "stateless exploration of all decision tapes of ill-behaved user functions up to a deviation bound, memory-safety monitors",
    "C19": DEFAULT.format("payload, subrange, size and key type of the specialized types"),
    "C20": DEFAULT.format("entry count around the limits of the size types"),
    "C21": DEFAULT.format("word over windows of integers"),
    "C22": "exhaustive enumeration of macro inputs within bounds, compiled and run, against the literal list",
    "C23": DEFAULT.format("content and representation"),
    "C24": DEFAULT.format("implementor, size and content of the length trait"),
    "C25": DEFAULT.format("string, subrange and surrounding"),
    "C26": "exhaustive single-preemption schedule exploration of pairs of reads at instruction granularity on the real code, plus immutability monitoring of the shared state",
    "C27": DEFAULT.format("key set and hash-code assignment, with memory and comparison counters"),
    "C28": "bounded exhaustive exploration of call sequences executed under Miri and AddressSanitizer as undefined-behaviour monitors",
    "C29": "explicit-state exploration of all sequences of reads to a depth on the real code, with answers and addresses compared with a reference state",
    "C30": "explicit-state exploration of all operation sequences on two collections with hashers of their own on the real code, with a ledger of hasher instances as monitor",
}
NOTE = {}
exec(open(V + "/tools/notes.py").read()) if os.path.exists(V + "/tools/notes.py") else None
checks, na = [], []
special = open(V + "/bin/special.py").read() if os.path.exists(V + "/bin/special.py") else ""
for p in props:
    i = p["id"]
    have = os.path.exists(V + "/harness/src/bin/%s.rs" % i.lower()) or ("def %s(" % i.lower()) in special
    if not have:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py %s quick" % i,
        "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "model_checking",
        "level_note": NOTE.get(i, "Exhaustive within the bounds stated in DESIGN.md, on the compiled implementation itself (no model in between); trusts rustc, std and the reference model of the harness."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 bin/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks run the real code of /repo, rebuilt from its working tree into /verif/target. No hooks in /repo are needed.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not yet")
