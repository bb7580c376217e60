#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  A property is claimed when harness/checks/<id>.py exists."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
TECH = "TLA+ specification checked with TLC; "
COMP = (TECH + "compositions drawn from the specification are replayed into the real code and the recorded answers are judged by TLC",
        "Compositions and histories are drawn by TLC from Gen.tla (sampled, not exhaustive); TLC evaluates the reference semantics in 80-digit arithmetic at random points and compares every recorded answer. Trusts the harness's translation of models and the Java evaluation of real arithmetic.")
DIRECT = (TECH + "answers of the real code to generated inputs are judged by TLC",
          "Inputs are sampled over the classes enumerated by the specification; TLC evaluates the defining formulas in 80-digit arithmetic.")
DESIGN = (TECH + "a state machine checked exhaustively within bounds, its behaviours replayed into the real code and the recorded traces validated by TLC",
          "The design specification is checked exhaustively within small bounds; its behaviours are replayed into the real code and every observation is judged by TLC. Larger instances than the bounds are sampled.")
LEVEL = {p: COMP for p in "C01 C02 C03 C04 C05 C06 C10 C11 C13 C14 C15 C19 C27 C32".split()}
LEVEL.update({p: DIRECT for p in "C22 C24 C21 C07 C26 C28".split()})
LEVEL.update({p: DESIGN for p in "C08 C09 C12 C16 C17 C18 C20 C23 C25 C29 C30 C31".split()})
props = [json.loads(x) for x in open(R / "properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if (R / "harness" / "checks" / (i.lower() + ".py")).exists():
        t, n = LEVEL[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public interface. VERIF_SEED seeds every random choice.")
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
