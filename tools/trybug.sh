#!/bin/bash
# tools/trybug.sh BUG-ID [PROPERTY...]: verify a planted bug and run checks
# against it, in a private mount namespace with a scratch copy at /repo.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/trybug_$ID
if [ -z "$TRYBUG_NS" ]; then
  mkdir -p "$W" && cp -a /repo "$W/repo" && mkdir "$W/verif" "$W/demo"
  (cd "$V" && cp -a checks lib run.sh setup.sh known_findings.jsonl "$W/verif/")
  cp -a "$V/seeded/$ID/." "$W/demo/"; mv "$W/demo/patch.diff" "$W/patch.diff"
  TRYBUG_NS=1 unshare -m --propagation private "$0" "$ID" "$@"
  rc=$?
  rm -rf "/tmp/trybug_$ID"
  exit $rc
fi
mount --bind "$W/repo" /repo && mount --bind "$W/verif" "$V" || exit 9
cd /repo || exit 9
P=$(python3 -c "import json;print(json.load(open('$W/demo/meta.json'))['property'])")
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?
git apply "$W/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >"$W/b" 2>&1; b=$?
bash /opt/vp/test.sh "$W/t.json" >"$W/t" 2>&1
t=$(python3 - "$W/t.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
  for k in ('stable','passed','tests','pass'):
    if isinstance(x.get(k),list): return set(x[k])
bs=names(b); ps=names(r)
m=sorted(bs-ps) if bs is not None and ps is not None else [str(list(b)[:5]),str(list(r)[:5])]
print(len(m), m[:3])
PY
)
fi
echo "$ID: demo clean=$d0 patched=$d1 build=$b stable-missing=$t"
[ "$d0" != 0 ] && tail -5 "$W/d0"; [ "$d1" = 0 ] && tail -5 "$W/d1"
for c in ${@:-$P}; do
  (cd "$V" && ./run.sh "$c" >"$W/c_$c" 2>&1; r=$?; echo "  $ID $c exit=$r $(grep -E "^(VIOL|INCON|HARN|$c:)" "$W/c_$c" | head -2 | cut -c1-260 | tr '\n' ' ')")
done
exit 0
