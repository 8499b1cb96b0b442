#!/bin/bash
# check.sh HARNESS PROPERTY [args]: builds the harness from /repo's current tree and runs it.
# check.sh mem C25: the memory check, which runs every harness under AddressSanitizer, one after another.
cd "$(dirname "$0")" || exit 2
H=$1; P=$2; shift 2
mkdir -p build
export LC_ALL=C.UTF-8 TZ=UTC G_SLICE=always-malloc
unset DISPLAY
if [ $H = mem ]; then
  HS="h_core h_parse h_play h_ws h_lit h_doc h_api"; s=$(date +%s)
  if ! make -s -j8 VARIANT=asan $(for h in $HS; do echo build/asan/$h; done) >build/$P.make.log 2>&1; then
    tail -20 build/$P.make.log; echo "build failed"; exit 2
  fi
  export ASAN_OPTIONS=detect_leaks=0:malloc_context_size=16:quarantine_size_mb=32
  rm -f build/C25-*.json; rc=0
  for h in $HS; do
    # a share of the time for each, in case the machine is slow
    [ "$VERIF_TIER" = thorough ] || export VF_LIMIT=$(case $h in h_core) echo 190;; h_play) echo 150;; h_parse|h_ws) echo 110;; *) echo 35;; esac)
    build/asan/$h $P "$@" >build/$P.$h.log 2>&1; r=$?
    sed "s/^$P: /$P: $h: /" build/$P.$h.log | grep -v '^KNOWN-FINDING'
    grep '^KNOWN-FINDING' build/$P.$h.log
    [ $r = 1 ] && { rc=1; break; }; [ $r -gt 1 ] && [ $rc = 0 ] && rc=$r
  done
  python3 tools/memmerge.py $(( $(date +%s) - s )) $HS || rc=2
  exit $rc
fi
if ! make -s -j8 VARIANT=opt build/opt/$H >build/$P.make.log 2>&1; then
  tail -20 build/$P.make.log; echo "build failed"; exit 2
fi
export MALLOC_PERTURB_=170 # uninitialised memory is never zero
[ $H = h_play ] && export GLIBC_TUNABLES=glibc.malloc.tcache_count=0
exec build/opt/$H $P "$@"
