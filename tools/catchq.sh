#!/bin/bash
# Development tool: catchq.sh STRIDE ID...   like catch.sh, but quickly: runs one case in STRIDE of the property's check, up to the first failure
V=$(cd "$(dirname "$0")/.." && pwd); ST=$1; shift
W=$(mktemp -d /tmp/catchq.XXXX); cp -a /repo $W/repo; mkdir $W/v; cp -a $V/Makefile $V/harness $V/shim $V/known-findings.txt $W/v/; mkdir $W/v/build; cp -a $V/build/opt $W/v/build/opt
export MALLOC_PERTURB_=170 LC_ALL=C.UTF-8 TZ=UTC G_SLICE=always-malloc VERIF_SEED=1 VERIF_TIER=quick; unset DISPLAY
cd $W/v
for a in "$@"; do
  i=${a%%:*}; p=${a#*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C $W/repo checkout -q -- . ; git -C $W/repo apply $V/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
  h=$(python3 -c "import json;print([c['quick_cmd'].split()[1] for c in json.load(open('$V/MANIFEST.json'))['checks'] if (c.get('property') or c.get('id'))=='$p'][0])")
  [ $h = mem ] && { echo "$i $p: use catch.sh"; continue; }
  make -s -j4 VARIANT=opt REPO=$W/repo build/opt/$h >$W/out 2>&1 || { echo "$i build"; continue; }
  e=; [ $h = h_play ] && e=GLIBC_TUNABLES=glibc.malloc.tcache_count=0
  r=$(env $e VF_MUT=$ST build/opt/$h $p | grep KILLED | head -1)
  echo "$i $p ${r:-MISSED}"
done
rm -rf "$W"
