#!/bin/bash
# mkseed.sh ID PROPERTY: takes the change in /tmp/sr and demo.cpp/demo.sh in /tmp/seed, files them and verifies them
# env NEEDS, BREAKS, SRCS (source variable, default $ALL), FLAGS
set -e
ID=$1 P=$2; S=/verif/seeded/$ID
mkdir -p $S; git -C /tmp/sr diff > $S/patch.diff; [ -s $S/patch.diff ]
cp -r /verif/tools/seedlib/inc /verif/tools/seedlib/lib.sh /verif/tools/seedlib/crc.cpp $S/
cp /tmp/seed/demo.cpp $S/
cat > $S/demo.sh <<X
. "\$(dirname "\$0")/lib.sh"
build demo ${FLAGS} -- demo.cpp ${SRCS:-\$ALL}
cd "\$T" && timeout ${TMO:-60} ./demo
X
python3 - "$P" "$NEEDS" "$BREAKS" > $S/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
cd /repo; bash $S/demo.sh > /tmp/seed/out0 2>&1 && a=0 || a=$?
cd /tmp/sr; bash $S/demo.sh > /tmp/seed/out1 2>&1 && b=0 || b=$?
echo "$ID clean=$a patched=$b"; tail -2 /tmp/seed/out0 | cut -c1-300; echo --; tail -3 /tmp/seed/out1 | cut -c1-300
bash -c 'cd /tmp/sr; g++ -std=c++17 -fsyntax-only -x c++ /dev/null'
[ $a = 0 ] && [ $b != 0 ] && git -C /tmp/sr checkout -q -- . || { echo REJECTED; rm -f $S/meta.json; exit 1; }
