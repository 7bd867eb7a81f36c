#!/bin/bash
# try.sh ID...: run each planted bug's quick check against a scratch copy of /repo
# carrying it (development only: the registered checks always read /repo). Results go
# to tools/caught.json, from which tools/gen.py makes the table in DESIGN.md.
cd "$(dirname "$0")/.."
wt=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo $wt/repo
export DST_REPO=$wt/repo
for id in "$@"; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C $wt/repo apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} ./check.sh ${PROP:-$p} ${TIER:-quick} 2>&1); rc=$?
  git -C $wt/repo checkout -q -- .
  n=$(echo "$out" | grep -c "^VIOLATION")
  echo "== $id $p rc=$rc $n"; echo "$out" | grep -E "kind=|HARNESS" -A1 | cut -c1-300 | head -4
  kind=$(echo "$out" | grep -E -m1 -o "kind=.*" | cut -c6-120)
  [ -z "$PROP" ] && /opt/venv/bin/python - "$id" "$rc" "$n" "$kind" <<'P'
import json, sys
f = "tools/caught.json"
try:
    d = json.load(open(f))
except FileNotFoundError:
    d = {}
i, rc, n, kind = sys.argv[1:]
d[i] = kind if rc == "1" and int(n) else None
json.dump(dict(sorted(d.items())), open(f, "w"), indent=0)
P
done
rm -rf "$wt"
echo done
