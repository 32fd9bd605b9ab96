#!/bin/sh
# usage: tlc.sh SPEC CFG [args]   (run in /verif/spec)
cd "$(dirname "$0")/../spec" && exec java -XX:+UseParallelGC -Xss64m -Xmx8g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:../build/classes tlc2.TLC -metadir /tmp/w/states -cleanup -workers 8 -config "$2" "$1" $3 $4 $5 $6
