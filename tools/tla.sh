#!/bin/sh
# tla.sh MODULE [cfg]: model check one module, showing the error and last state
d=$(mktemp -d /tmp/tla.XXXXXX); cd /verif/spec
JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=$d -Xss64m" tlc -workers 8 -metadir $d/md -noGenerateSpecTE -config ${2:-$1}.cfg $1.tla > $d/out 2>&1
grep -n -A4 "^Error"  $d/out | head -30; grep -n "violated\|states generated\|PrintT\|GEN" $d/out | head -${3:-20}; grep -A12 "^State" $d/out | tail -20
case "$d" in /tmp/tla.*) rm -r "$d";; esac
