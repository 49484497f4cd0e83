#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  The properties' text is here."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over.split(), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}), hook_needed=None)))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

CLAIMED = json.load(open(os.path.join(ROOT, "tools", "claimed.json")))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks, na = [], []
RUST_NOTE = ("Exhaustive within the stated scenarios and deviation bounds, on the real procstar binary built from /repo/src: every system call that "
    "matters is answered by the explorer, so there is no model to trust except the oracle. Trusts the interposer (harness/px.c), the puppet processes that stand for user programs, the patched "
    "branch choice of tokio::select and the fake TLS layer; bounds (numbers of processes, operations and deviations) are in the evidence.")
PY_NOTE = ("Exhaustive within the stated scenarios and bounds, on the real Python agent library from /repo/python with the real websockets library, run on a deterministic event loop whose "
    "schedule, clock and websocket peers the explorer controls. Trusts the explorer's event loop, in-memory transports and agents (harness/py), and that time passes only while all is idle; bounds are in the evidence.")
E_NOTE = ("Exhaustive within the stated scenarios and deviation bounds, on the real procstar binary built from /repo/src and the real Python library from /repo/python at once; every message in either direction, "
    "loss, call and system call that matters is moved by the explorer. Trusts the interposer (harness/px.c), the puppet processes, the relay and the Python event loop of harness/py; bounds are in the evidence.")
for p in P:
    i = p["id"]
    if i in CLAIMED["not_applicable"]: na.append(dict(property=i, reason=CLAIMED["not_applicable"][i])); continue
    if i not in CLAIMED["claimed"]: na.append(dict(property=i, reason="The check of this property is not built yet.")); continue
    py, e = i.startswith("Q"), i.startswith("E")
    checks.append(dict(property=i, quick_cmd=f"harness/check.sh {i} quick", thorough_cmd=f"harness/check.sh {i} thorough",
        technique="model checking: stateless exploration of the real " + ("Python library under a controlled event loop" if py else "program and Python library together, under a controlled scheduler, clock, kernel and network" if e else "program under a controlled scheduler, clock, kernel and network"),
        level="model_checking", level_note=PY_NOTE if py else E_NOTE if e else RUST_NOTE))
m = dict(version=1, setup_cmd="harness/build.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the machinery interposes on the system-call level (Rust) and on the event loop (Python).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
