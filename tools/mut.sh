#!/bin/bash
# try a one-off textual change of the analysed tree: tools/mut.sh "C18 C20" <case substr> <file> <python expr on s>
P="$1"; sub="$2"; f="$3"; e="$4"
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/pure_sklearn /repo/pure_fasttext $d/
python3 - "$d/$f" "$e" <<'PY'
import sys
p,e=sys.argv[1:]
s=open(p).read()
n=eval(e)
assert n!=s, "no change"
open(p,"w").write(n)
PY
[ $? = 0 ] && for q in $P; do PPS_REPO=$d PPS_EVIDENCE=/tmp/evm python3 -m pps.run $q --case "$sub" | cut -c1-330 | tail -${L:-3}; done
rm -rf "$d"
