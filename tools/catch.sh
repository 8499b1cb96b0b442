#!/bin/bash
# Development tool: catch.sh ID[:PROP]...   runs the check of each planted bug against it, in scratch copies of /repo and /verif
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/catch.XXXX); cp -a /repo $W/repo; cp -a $V $W/verif
for a in "$@"; do
  i=${a%%:*}; p=${a#*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . ; git -C $W/repo apply $V/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
  c=$(python3 -c "import json;print([c['quick_cmd'] if 'quick_cmd' in c else c['quick'] for c in json.load(open('$V/MANIFEST.json'))['checks'] if c.get('property')=='$p' or c.get('id')=='$p'][0])")
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 unshare -Urm sh -c "mount --bind $W/repo /repo && mount --bind $W/verif $V && cd $V && $c" >$W/out 2>&1; r=$?
  echo "$i $p exit $r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $W/out)"
  [ $r = 1 ] || tail -3 $W/out
done
rm -rf "$W"
