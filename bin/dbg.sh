#!/bin/bash
# dbg.sh UNIT HARNESS UNWIND SECONDS: show which loops symbolic execution spends its time in (development aid)
# env DEFS: -D options; REPL: body:f ...
t=/tmp/verif-dbg; mkdir -p $t
u=/verif/units/$1.c
cd=$(grep '^//@cdef' $u | sed 's/\/\/@cdef//; s/ \([A-Z]\)/ -D\1/g')
sysf=$(grep '^//@sys' $u | sed 's/\/\/@sys//')
cr=$(grep '^//@creplace' $u | sed 's/\/\/@creplace//; s/ \([a-z]\)/ body:\1/g')
gcc -E -o $t/a.i -DVERIF_CBMC $cd $DEFS -std=gnu11 -D_POSIX_C_SOURCE=200809L -D_FILE_OFFSET_BITS=64 -D__NO_CTYPE -I/verif/shim -I/verif -I${VERIF_REPO:-/repo}/src -I/usr/include/libxml2 -I/usr/include/postgresql -I${VERIF_REPO:-/repo}/_build/src -w $u || exit 1
python3 /verif/bin/xform.py $t/a.i $t/a.c cbmc $sysf $REPL $cr && goto-cc -o $t/a.gb -c $t/a.c || exit 1
timeout -s INT $4 stdbuf -oL cbmc --verbosity 9 --no-standard-checks --unwinding-assertions --no-malloc-may-fail --drop-unused-functions --slice-formula --object-bits 16 --max-field-sensitivity-array-size 256 --function $2 --unwind $3 $CBMCARGS $t/a.gb > $t/log 2>&1
grep -o 'Unwinding loop [^ ]*\|Unwinding recursion [^ ]*' $t/log | sort | uniq -c | sort -rn | head -${TOP:-15}; tail -3 $t/log | cut -c1-200
