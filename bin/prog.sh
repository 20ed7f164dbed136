#!/bin/bash
# prog.sh HARNESS UNWIND [args]: the SSA program of the last dbg.sh build, constants visible (development aid)
h=$1; u=$2; shift 2
cbmc --no-standard-checks --no-malloc-may-fail --drop-unused-functions --object-bits 12 --max-field-sensitivity-array-size 256 --function $h --unwind $u "$@" --program-only /tmp/verif-dbg/a.gb > /tmp/verif-dbg/prog 2>/tmp/verif-dbg/prog.err
