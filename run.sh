#!/bin/bash
# run.sh <property> <quick|thorough>   decide one property against /repo's working tree
# run.sh --replay <file>               re-run a saved counterexample
# run.sh --build                       build every binary
# VERIF_SEED: seed; VP_REPO: the tree to check; VP_FUZZ: seconds of the coverage-guided stage
# Builds what it needs under /verif/build (keyed by the content of the sources), never in /repo.
cd "$(dirname "$0")" || exit 2
V=$PWD
REPO=${VP_REPO:-/repo}
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=2048:malloc_context_size=8:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
export TSAN_OPTIONS=halt_on_error=1:abort_on_error=1:handle_abort=0:report_thread_leaks=0
export LC_ALL=C
ulimit -s 1048576 2>/dev/null # sanitizers make frames larger
make -s -f harness/Makefile group-of >/dev/null 2>&1
declare -A G
while read -r g ids; do for i in $ids; do G[$i]=$g; done; done < harness/groups
build() { # group -> binary path
    make --no-print-directory -s -j8 -f harness/Makefile REPO="$REPO" V="$V" "$1" >"$V/build/$1.log" 2>&1 || { tail -40 "$V/build/$1.log" >&2; return 1; }
}
mkdir -p build evidence replays
if [ "$1" = --build ]; then
    rc=0
    for g in $(cut -d' ' -f1 harness/groups); do build "$g" || { echo "group $g does not build" >&2; rc=2; }; done
    exit $rc
fi
if [ "$1" = --replay ]; then
    P=$(sed -n 's/^property //p' "$2" | head -1)
    g=${G[$P]}; [ -n "$g" ] || { echo "unknown property in $2" >&2; exit 2; }
    build "$g" || exit 2
    exec "build/bin/$g" --replay "$2"
fi
P=$1; T=${2:-${VERIF_TIER:-quick}}
g=${G[$P]}; [ -n "$g" ] || { echo "unknown property $P" >&2; exit 2; }
# thorough: a coverage-guided search follows the random cases (not for the data-race build)
B=$g; F=()
if [ "$T" = thorough ] && [ "$g" != conc ]; then B=$g-fuzz; F=(--fuzz "${VP_FUZZ:-240}"); fi
build "$B" || exit 2
S=${VERIF_SEED:-1}
sed -n "s/^known: property=$P /KNOWN-FINDING: property=$P /p" known_findings.txt 2>/dev/null
exec "build/bin/$B" --prop "$P" --tier "$T" --seed "$S" --out "evidence/$P.json" --replays replays "${F[@]}" "${@:3}"
