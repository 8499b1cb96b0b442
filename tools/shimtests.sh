#!/bin/bash
# Developer aid: builds the repository's own tests against the shim and runs them.
cd "$(dirname "$0")/.."; PWD0=$PWD
T=$(cd ${REPO:-/repo}/tests; ls test-*.cpp | sed 's/.cpp//' | grep -E 'test-(Context|Media|Switch|Document|Ginga|Parser|Object|Event|Predicate|Animator|Player)')
make VARIANT=${B:-opt} REPO=${REPO:-/repo} -k -j8 $(for t in $T; do echo build/${B:-opt}/t_$t; done) >build/shimtests.log 2>&1
for t in $T; do
 ( cd ${REPO:-/repo}; timeout 20 $PWD0/build/${B:-opt}/t_$t >/dev/null 2>&1 && echo "PASS $t" || echo "FAIL $t" ) 
done
