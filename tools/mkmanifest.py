#!/usr/bin/env python3
"""writes MANIFEST.json from the list below"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TV = ("solver-based translation validation: symbolic execution (z3) of the emitted wasm module against the "
      "symbolic execution of clang's IR of the same C source")
TVN = ("For each program of the corpus: every path within the stated bounds, every input value; the solver shows each "
       "output and the exit status equal to the C reference's, or gives inputs that are replayed natively (gcc) and "
       "under node before they are reported. Covers the programs of the corpus, not all programs. Trusts clang -O0, z3, "
       "the wasm decoder/interpreter and the library stubs.")
NA = {'C26': "The scanner and generated LR parser over arbitrary source text, and the diagnostics behind them, work on "
             "heap-backed strings, trees and hash maps of unbounded size; within reach of symbolic execution would be "
             "inputs of a few characters only, which says nothing about programs, so no check is claimed."}
SPECIAL = {}
exec(open(os.path.join(V, "tools", "special_manifest.py")).read()) if os.path.exists(
    os.path.join(V, "tools", "special_manifest.py")) else None
checks = []
for p in props:
    if p['id'] in NA:
        continue
    c = dict(property=p['id'], quick_cmd="VERIF_TIER=quick python3-vt check.py " + p['id'],
             thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p['id'],
             technique=TV, level="translation_validation", level_note=TVN)
    c.update(SPECIAL.get(p['id'], {}))
    checks.append(c)
m = dict(version=1, setup_cmd="python3-vt tools/setup.py",
         hooks=HOOKS if 'HOOKS' in globals() else dict(guard="none", enable="no hooks are needed: the checks run the compiler binary and its modules",
                                                        source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
