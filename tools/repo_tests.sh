#!/bin/bash
# Development aid: builds the repository's own unit tests against the stand-in
# absl/re2 headers (real libstdc++ and gtest) and runs them. Not a check.
REPO=${BANT_REPO:-/repo}; V=$(cd "$(dirname "$0")/.." && pwd); W=${1:-/tmp/rt}; mkdir -p $W; cd $REPO
CXX="clang++-18 -std=c++23 -w -g -O1 -fsanitize=address -I$V/shim/absl_native -I$V/shim -I$REPO"
srcs=$(ls bant/*.cc bant/*/*.cc | grep -v _test.cc | grep -v 'bant/bant.cc')
for f in $srcs; do o=$W/$(echo $f | tr / _).o; echo "$CXX -c $f -o $o || echo FAIL $f"; done | xargs -P 8 -I{} bash -c '{}' 2>&1 | grep -E "FAIL|error" | head -20
objs="$(for f in $srcs; do echo -n "$W/$(echo $f | tr / _).o "; done)"
one() { t=$1; n=$(basename $t .cc); $CXX $t $objs -lgtest -lgtest_main -lgmock -lpthread -o $W/$n || { echo "$n does not build"; return; }
  (cd $W && timeout 120 ./$n > $n.log 2>&1; echo "$n exit $? ok $(grep -c "       OK" $n.log)"; grep -E "FAILED|ERROR:|runtime error|Failure" $n.log | head -8); }
export -f one; export CXX objs W
ls bant/*_test.cc bant/*/*_test.cc | xargs -P 8 -I{} bash -c 'one {}' 
