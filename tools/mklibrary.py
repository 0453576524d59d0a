"""Writes spec/library.ndjson, the table of the library's content by level, job, name and patch.
Transcribed from the tree the specification was written for; run by hand, never by a check."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import props_misc as m

tab = {}
for l in (90, 100):
    for v in m.VER:
        if (v, l) == ("6.55", 100):
            continue
        now = {(j, n): x for j, n, x in m.lib_entries(m.create(v, l))}
        for k in set(now) | {k[1:] for k in tab if k[0] == l}:
            e = tab.setdefault((l,) + k, [])
            x = now.get(k)
            if e and e[-1][1] == x or not e and x is None:
                continue
            e.append([v, x])
with open(m.LIBRARY, "w") as f:
    for (l, j, n), e in sorted(tab.items()):
        f.write(json.dumps({"l": l, "j": j, "n": n, "e": e}, sort_keys=True) + "\n")
