#!/bin/bash
# tools/tlc.sh MODULE [tlc args]: run TLC on spec/MODULE with the override on the classpath
cd "$(dirname "$0")/../spec"
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p ../build/classes
[ ../build/classes/Rat.class -nt Rat.java -a ../build/classes/Rat.class -nt RatValue.java ] || javac -cp $CP -d ../build/classes Rat.java RatValue.java || exit 3
M=$1; shift
T=$(mktemp -d)
java -XX:+UseParallelGC -Xss64m -cp ../build/classes:$CP tlc2.TLC -metadir $T -config $M.cfg "$@" $M.tla
R=$?; rm -r "$T"; exit $R
