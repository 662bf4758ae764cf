#!/usr/bin/env python3
"""Writes MANIFEST.json (run it after changing the list of checks)."""
import json, os

TRUST = "Random search, no proof: bugs outside the generators' domain (DESIGN.md) or rarer than the number of cases reach can stay unseen. Trusted: the reference model in /verif/harness, the Go toolchain, rapid."
CHECKS = {
 "C01": ("PBT: round trip of generated documents through both writers", "{T}"),
 "C02": ("PBT: grammar-derived texts whose meaning is known by construction", "{T}"),
 "C03": ("fuzzing: corrupted and arbitrary texts against an independent recognizer, deep nesting, watchdog", "{T}"),
 "C04": ("PBT: reference model of the conversions, round trip, aliasing invariant", "{T}"),
 "C05": ("PBT: round trip and reference decoder for the compatible encoding", "{T}"),
 "C06": ("PBT: generated pairs against a reference equality", "{T}"),
 "C07": ("PBT: reference lookup over all spellings of generated paths", "{T}"),
 "C08": ("PBT: metamorphic relation apply(original, diff(original, target)) = target", "{T}"),
 "C09": ("PBT: generated patches against the set of real changes computed by a reference diff", "{T}"),
 "C10": ("PBT: random operation sequences against a reference interpreter", "{T}"),
 "C11": ("PBT: invariant (deep snapshot before = after) over generated calls", "{T}"),
 "C12": ("PBT: round trip and malformed patch texts", "{T}"),
 "C13": ("stateful PBT: histories against a reference model", "{T}"),
 "C14": ("stateful PBT: state dump before = after for random queries, order independence", "{T}"),
 "C15": ("stateful PBT: recorded patches against a reference log", "{T}"),
 "C16": ("stateful PBT: differential, slice against full document and model", "{T}"),
 "C17": ("stateful PBT: histories against a reference model", "{T}"),
 "C18": ("stateful PBT: reference model, metamorphic regrouping and reordering", "{T}"),
 "C19": ("stateful PBT: histories against a reference model", "{T}"),
 "C20": ("stateful PBT: differential, slice against full document and model", "{T}"),
 "C21": ("stateful PBT: sessions against a reference model", "{T}"),
 "C22": ("stateful PBT: invariant over all versions before and after compaction", "{T}"),
 "C23": ("stateful PBT: histories against a reference model", "{T}"),
 "C24": ("stateful PBT: slices grown further against an independent model", "{T}"),
 "C25": ("PBT: patch applied to the previous step = next step, rates as statistics at 9 sigma", "{T}"),
 "C26": ("PBT: generated datasets against generated schemas", "{T}"),
 "C27": ("PBT: files written to a scratch directory replayed from the first one", "{T}"),
 "C28": ("PBT: generated datasets and concurrent requests against a reference model", "{T}"),
 "C29": ("stateful PBT: histories against a reference model; differential against the versioned document", "{T}"),
 "C30": ("PBT: invariants over the files of randomized simulation runs (random sensors, generated settings)", "{T}"),
 "C31": ("PBT: differential between input forms; refused inputs leave the state alone", "{T}"),
 "C32": ("stateful PBT: sequences of battery levels and times against a reference state machine", "{T}"),
 "C33": ("PBT: generated initial documents and patch lists against a reference model", "{T}"),
 "C34": ("stateful PBT: query sequences against a reference model; pipeline over randomized simulation runs", "{T}"),
 "C36": ("stateful PBT: differential between a history and its saved and reloaded form", "{T}"),
 "C37": ("stateful PBT: series of states as their own oracle (round trip through differences and versions)", "{T}"),
 "C38": ("PBT: generated command lines in a process of their own against the options they spell out", "{T}"),
 "C39": ("PBT: generated concurrent calls against their sequential results, under the race detector", "{T} Schedules are those the Go scheduler happens to run; the race detector also sees races whose accesses did not collide."),
 "C40": ("stateful PBT: generated user actions and arrival orders of answers, the page run by node with a stand-in for the browser", "{T} The stand-in for the browser (harness/page/page.js) knows the parts of the document interface such a page may use, not all of it."),
 "C41": ("stateful PBT: generated sequences of recorded steps and of saves against the list of what was given; files looked at between steps", "{T} A crash is modelled by reading the files before the recorder is closed; failures of the operating system are not injected."),
 "C35": ("PBT: every update of randomized simulation runs against the definition of its pattern", "{T}"),
}
CHECKS.update(json.load(open(os.path.join(os.path.dirname(__file__), "more.json"))) if os.path.exists(os.path.join(os.path.dirname(__file__), "more.json")) else {})

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py list", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n.replace("{T}", TRUST)})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
