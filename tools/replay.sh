#!/bin/bash
# tools/replay.sh <file> [-q]: rebuilds and executes one replay file, event by event
cd "$(dirname "$0")/.." || exit 2
F=$1
P=$(awk '$1=="property"{print $2; exit}' "$F")
V=plain
[ "$P" = C04 ] && V=asan
bash tools/build.sh $V || exit 2
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:abort_on_error=0
export UBSAN_OPTIONS=exitcode=77:print_stacktrace=1
exec ${SIM_BUILD:-$PWD/build}/$V/sim --root "$PWD" replay "$F" $2
