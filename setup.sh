#!/bin/sh
# Builds the TLC module override (double arithmetic and forcing) from the committed source.
cd "$(dirname "$0")" && mkdir -p build/classes work evidence \
  && javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/Float64.java
