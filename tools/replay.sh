#!/bin/bash
# tools/replay.sh harness.cc replayfile "-Ddefs" srcs... : native run of a counterexample
set -e
H=$1; R=$2; D=$3; shift 3
O=/tmp/replay.$$; mkdir -p $O
clang++ -O1 -g -fsanitize=address -DSYMX_NATIVE -std=c++17 -w -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS $D -I/repo -I/repo/webm_parser -I/repo/webm_parser/include -I/verif/harness /verif/harness/$H /verif/harness/replay.cc $(cd /repo; for s in "$@"; do ls -d /repo/$s; done) -o $O/a
ASAN_OPTIONS=detect_leaks=0:exitcode=99 $O/a $R; echo rc=$?
rm -rf $O
