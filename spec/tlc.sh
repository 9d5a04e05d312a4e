#!/bin/bash
# tlc.sh MODULE [CFG] [args]: TLC with the Real override on the class path.
d=$(cd "$(dirname "$0")" && pwd); cd "$d"
m=$1; c=${2:-$1.cfg}; shift; shift
meta=$(mktemp -d "$d/../build/tlc.XXXXXX")
java -XX:+UseParallelGC -Dtlc2.tool.distributed.TLCServer.expectedFPSetCount=1 -cp $d/../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $meta -config $c "$@" $m.tla | grep -v "^Loading R"
rm -rf "$meta"
