#!/bin/bash
# tools/check.sh <property> [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
P=$1
T=${2:-${VERIF_TIER:-quick}}
V=plain
[ "$P" = C04 ] && V=asan
if ! bash tools/build.sh $V >build.log.$$ 2>&1; then
    cat build.log.$$
    rm -f build.log.$$
    echo "error: the simulator could not be built from /repo"
    exit 2
fi
rm -f build.log.$$
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_abort=0:abort_on_error=0
export UBSAN_OPTIONS=exitcode=77:print_stacktrace=1
exec ${SIM_BUILD:-$PWD/build}/$V/sim --root "$PWD" check "$P" "$T"
