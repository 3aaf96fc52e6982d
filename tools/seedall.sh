#!/bin/bash
# Runs each planted bug's check on /repo with the patch applied, and notes the outcome in tools/seed_results.json.
# usage: tools/seedall.sh [seed...]     (by hand only; no check uses it)
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || continue
  python3 check.py $p > /tmp/seedall.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  python3 - $s $p $rc <<'P'
import json, re, sys, os
s, p, rc = sys.argv[1:]
f = "tools/seed_results.json"; d = json.load(open(f)) if os.path.exists(f) else {}
t = open("/tmp/seedall.out").read()
hs = re.findall(r"^VIOLATION property=\S+ replay=\S+\n  (\w+): (\S+): ", t, re.M)
d[s] = ", ".join(sorted({f"{p} {h} ({k})" for h, k in hs})) if rc == "1" else f"**missed** (exit {rc})"
json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
print(s, p, rc, d[s], flush=True)
P
done
