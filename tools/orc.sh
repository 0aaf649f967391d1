#!/bin/bash
# orc.sh <prop>: build and run an oracle alone (objects cached in /tmp/orcobj by content); env SEED, SECS, VC_REPO, VERIF_OSRC="src/..." to override the sources
cd "$(dirname "$0")/.."; P=$1; R=${VC_REPO:-/repo}; C=/tmp/orcobj; mkdir -p $C
FL="-std=c++17 -O1 -fno-access-control -D_GLIBCXX_ASSERTIONS -pthread -w -I$R -I$R/include -I$R/src -I/usr/include/ompl-1.5 -I/usr/include/eigen3 -I$R/src/util/external/kdl_parser/include -I/verif/oracle"
read -r SRC < <(python3-vt - <<E2
import importlib,sys
sys.path.insert(0,"/verif")
try:
    m=importlib.import_module("vc.specs.$P"); s=getattr(m,"ORACLE_SRC",None) or m.TUS; l=getattr(m,"ORACLE_LIBS",[])
except ModuleNotFoundError: s=[]; l=[]
import os
s=os.environ.get("VERIF_OSRC","").split() or s; l=os.environ.get("VERIF_OLIB","").split() or l
print(" ".join(s),"|"," ".join(l))
E2
)
LIBS=${SRC#*|}; SRC=${SRC%|*}
H=$(cat $(find $R/include $R/src -name '*.h') | md5sum | cut -c1-12)
OBJ=(); T=()
for f in $SRC; do h=$(md5sum < $R/$f | cut -c1-16); o=$C/$(basename $f .cpp)_${h}_$H.o; OBJ+=($o); [ -f $o ] || T+=("$R/$f $o"); done
h=$(cat oracle/$P.cpp oracle/*.h | md5sum | cut -c1-16); o=$C/o$P$h$H.o; OBJ+=($o); [ -f $o ] || T+=("oracle/$P.cpp $o")
[ ${#T[@]} -gt 0 ] && printf '%s\n' "${T[@]}" | xargs -P 8 -L 1 sh -c "g++ $FL -c \$0 -o \$1 2>&1 | grep -E 'error|Error' -A3 | head -20"
D=$(mktemp -d /tmp/orc.XXXXXX)
g++ "${OBJ[@]}" -o $D/o -pthread $LIBS 2>&1 | grep -vE "warning|in function" | head -${HL:-10}
(cd $D; VC_REPO=$R ORACLE_DATA=/verif/oracle ./o ${SEED:-1} ${SECS:-4}; echo "exit $?") | cut -c1-${W:-600}
rm -rf "$D"
