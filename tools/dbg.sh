#!/bin/bash
# debugging: symbolic then concrete run of one property, short output
cd /verif
P=$1; S=${2:-2}; shift; shift
T=$(mktemp)
python3-vt -m engine.symrun $P "$@" > $T 2>&1
grep -v "obl=\([0-9]*\)/\1 " $T | cut -c1-${W:-230} | head -${N:-9}
/opt/venv/bin/python -m engine.conrun $P --secs $S "$@" > $T 2>&1
grep -v "^[a-z_0-9]*\[.*skips=[0-9]* \|^[a-z_0-9]*: runs.*skips=[0-9]* " $T | cut -c1-${W:-230} | head -${N:-9}
rm -f $T
