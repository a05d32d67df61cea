"""Regenerates the lists at the end of DESIGN.md (repairs, planted bugs). Development only."""

import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Defects found and repaired\n"

text = open(f"{HERE}/DESIGN.md").read().split(MARK)[0]
text += MARK + """
Found by the checks on the original tree, each repaired by a `fix:` commit in /repo (also in
`known_findings.jsonl`; entries there with status `fixed` suppress nothing). There is no finding
left unrepaired.

"""
for l in open(f"{HERE}/known_findings.jsonl"):
    d = json.loads(l)
    text += f"* {d['property']} `{d['commit']}` {d['what']}\n"
text += """
## Planted bugs

Each was written from the statement of a property and the code, confirmed in a scratch copy (the
141 stable tests pass, the demonstration fails with it and passes without), and is caught by the
quick check of its property at `VERIF_SEED=1`:

| bug | caught by | breaks | needs |
|---|---|---|---|
"""
for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    d = json.load(open(f))
    text += f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |\n"
text += open(f"{HERE}/tools/design_tail.md").read()
open(f"{HERE}/DESIGN.md", "w").write(text)
