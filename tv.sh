#!/bin/sh
# tv.sh MODULE TRACEFILE: validates one file of recorded histories (for use by hand).
cd /verif/spec
M=/verif/target/meta_$$
TRACE=$2 ../tlc.sh -config ${CFG:-Trace.cfg} -workers 1 -metadir $M $1.tla 2>&1 | grep -E "MISMATCH|rror|states generated|Finished|onflict|^line |nknown|rgument|expected" | grep -v "^Parsing" | cut -c1-${W:-1500} | head -${L:-12}
rm -rf /verif/target/meta_$$
