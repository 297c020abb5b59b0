#!/bin/bash
# run TLC by hand: tools/tlc.sh Module [cfg] [extra args]
cd "$(dirname "$0")/../spec"; m=$1; c=${2:-$1.cfg}; shift; shift
d=$(mktemp -d /tmp/tlcm.XXXX)
java -XX:+UseParallelGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -noGenerateSpecTE -metadir $d -config $c "$@" $m.tla | grep -v -E '^(Parsing|Semantic|Linting|Computed)'
rm -rf "$d"
