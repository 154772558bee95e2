#!/bin/sh
# TLC with the accelerators of spec/Bits.tla. Run in /verif/spec.
exec java -XX:+UseParallelGC -XX:ParallelGCThreads=${GCT:-2} -Xss${XSS:-64m} -Xmx${XMX:-3g} \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VBits \
  -cp /verif/target/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
