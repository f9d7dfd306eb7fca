#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "crates/compiler/semantic/src/"
P = []  # properties with checks
NA = []  # properties without
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), pkg=None, bin=None, note=None, na=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
    if na: NA.append(dict(property=id, reason=na))
    else: CHECKS.append((id, pkg, bin, note, level))
CHECKS = []
exec(open(os.path.join(V, "tools", "properties.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
pkgs = []
for _, pkg, b, _, _ in CHECKS:
    if pkg not in pkgs: pkgs.append(pkg)
man = dict(version=1, setup_cmd="./check --build " + " ".join(pkgs),
    hooks=dict(guard="cairo_m_sim", enable="rustc --cfg cairo_m_sim (set for the packages under /verif/simvm by its .cargo/config.toml; everything under /verif/sim builds without it): a step budget for the virtual machine, so that a run which would never end can be cut off. Every other seam (database, threads, locks, clock, entropy, file system calls) is taken below the code, at the C library and by build-time replacement of dependencies", source_commits=["329ee0f"]),
    checks=[dict(property=i, quick_cmd=f"./check {pkg} {b} {i} --tier quick", thorough_cmd=f"./check {pkg} {b} {i} --tier thorough",
        technique="deterministic simulation with fault injection: seeded search over schedules, histories and faults, judged against a reference",
        level=lv, level_note=note) for i, pkg, b, note, lv in CHECKS],
    not_applicable=NA)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
