#!/bin/bash
# run.sh <ID> [quick|thorough] [extra arguments for the check]
# Builds the check <ID> from /repo's current tree and runs it.
id=$1; tier=${2:-quick}; shift; shift
cd /verif || exit 2
mkdir -p /verif/evidence
[ -f /verif/checks/$id.sh ] && exec bash /verif/checks/$id.sh "$tier" "$@"
src=/verif/checks/$id.cpp
[ -f $src ] || { echo "no check $id"; exit 2; }
# "// build: VARIANT=asan ..." in the first lines of the check picks its build
opts=$(sed -n '1,8s,^// build: ,,p' $src)
make -s -j8 -f harness/Makefile CHECK=$id $opts || { echo "BUILD FAILED for $id"; exit 2; }
variant=$(echo "$opts" | tr ' ' '\n' | sed -n 's/^VARIANT=//p'); variant=${variant:-plain}
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0
export UBSAN_OPTIONS=print_stacktrace=0:halt_on_error=1:abort_on_error=1
exec /verif/build/$variant/$id --tier "$tier" "$@"
