#!/bin/bash
# compiles the TLC operator override (rational arithmetic); everything else is interpreted
set -e
cd "$(dirname "$0")/.."
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
mkdir -p build/classes work evidence
javac -cp "$CP" -d build/classes spec/Rat.java spec/RatValue.java
echo "setup done"
