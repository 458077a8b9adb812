"""The table of planted bugs for DESIGN.md (stdin: lines 'ID PROP rc=N ...' of
the detection runs; bugs without a line were decided in an earlier run)."""
import json
import os
import sys

ROOT = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'seeded')
missed = {ln.split()[0] for ln in sys.stdin if 'rc=0' in ln}
by = {}
for b in sorted(os.listdir(ROOT)):
    with open(os.path.join(ROOT, b, 'meta.json')) as f:
        m = json.load(f)
    by.setdefault(m['property'], []).append(
        (b.split('-', 1)[1], m['what_it_breaks'], b in missed))
for p, v in sorted(by.items()):
    print(f'* **{p}**: ' + '; '.join(
        f'`{n}`' + (' (missed)' if miss else '') + f' {w}'
        for n, w, miss in v) + '.')
