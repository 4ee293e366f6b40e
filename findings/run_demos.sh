#!/bin/bash
# Runs the defect demonstrations against /repo (not part of any check): bash findings/run_demos.sh [repo]
R=${1:-/repo}; D=$(dirname "$(readlink -f "$0")"); W=$(mktemp -d); rc=0
FL="-std=c++17 -g -fsanitize=address -I/usr/include/eigen3 -I$R/nmpc_ddp/include -I$R/nmpc_fmpc/include"
echo '#include <nmpc_ddp/BoxQP.h>' > $W/h.cpp; g++ $FL -fsyntax-only $W/h.cpp >/dev/null 2>&1 && echo "ok   BoxQP.h alone" || { echo "FAIL BoxQP.h alone"; rc=1; }
printf '#include <nmpc_ddp/DDPSolver.h>\n#include <nmpc_fmpc/FmpcSolver.h>\n' > $W/h.cpp; g++ $FL -fsyntax-only $W/h.cpp >/dev/null 2>&1 && echo "ok   both solvers in one unit" || { echo "FAIL both solvers in one unit"; rc=1; }
for d in "demo_ddp" "demo_fmpc -DNQ=2" "demo_fmpc -DNQ=-1"; do set -- $d; echo "== $d"; g++ $FL $2 $D/$1.cpp -o $W/x 2>$W/err || { echo "FAIL does not compile: $(grep -m1 error $W/err)"; rc=1; continue; }; ASAN_OPTIONS=alloc_dealloc_mismatch=0 $W/x || rc=1; done
rm -r "$W"; exit $rc
