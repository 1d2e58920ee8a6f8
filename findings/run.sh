#!/bin/bash
# usage: findings/run.sh TREE  - compiles demo.cpp against a tree of the library and runs every case in a scratch directory
T=${1:?tree}; H=$(cd "$(dirname "$0")" && pwd); S=$(mktemp -d)
flags="-std=c++11 -g -D_GLIBCXX_ASSERTIONS -I$T/include -I$T/dependencies/CLI11 -I$T/dependencies/dr_libs"
extra=
for g in NO_RVALUE_ENV NO_CONST_MATCHER; do :; done
g++ $flags "$H/demo.cpp" -o $S/demo 2>$S/err || { extra="-DNO_RVALUE_ENV -DNO_CONST_MATCHER"; echo "COMPILE FAILS with temporary envelopes / const matchers"; g++ $flags $extra "$H/demo.cpp" -o $S/demo || exit 2; }
for c in last-envelope temporary-envelope assign-envelopes envelope-rate envelope-rewind envelope-reset empty-envelope wav-loop wav-fewer short-sweep all-checks full-timestamp full-prepare nan negative-db const-matcher layout-query short-write append-empty magnitude-range gain-precision save-on-assert plot-time short-blocks task-exception; do
  (cd $S && timeout 60 ./demo $S $c >$S/out 2>&1); rc=$?; echo "$c: $([ $rc = 0 ] && echo holds || echo "DEFECT (exit $rc)")"; grep shows: $S/out
done
find "$S" -delete
