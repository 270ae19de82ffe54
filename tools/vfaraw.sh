#!/bin/bash
# run the engine directly on one harness, output to stdout (development aid): vfaraw.sh HARNESS [engine options]
cd "$(dirname "$0")/.."; h=$1; shift
fl=$(python3 -c "import sys;sys.path.insert(0,'checks');import run;print(*run.CXXFLAGS,'-I'+run.REPO)")
clang++-18 $fl -Iharness harness/$h -o /tmp/vfaraw.ll && build/vfa -unroll-threshold=100000 $(sed -n 's|^// VFA: ||p' harness/$h) /tmp/vfaraw.ll "$@" -o-json=/tmp/vfaraw.json -o-ir=/tmp/vfaraw.opt.ll
