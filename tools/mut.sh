#!/bin/bash
# mut.sh <file relative to the repo> <python expression on s> <id>...: runs checks against a mutated scratch copy
set -e
f=$1; e=$2; shift 2
M=/tmp/mut; mkdir -p $M; rsync -rlpgoD --no-times --checksum --delete --exclude _build --exclude .git ${REPO:-/repo}/ $M/src/ 2>/dev/null || { rm -rf /tmp/mut/src; mkdir -p $M/src; (cd ${REPO:-/repo} && tar c --exclude=./_build --exclude=./.git .) | tar x -C $M/src; }
python3 - "$M/src/$f" "$e" <<'PY'
import sys
p,e=sys.argv[1:]
s=open(p).read(); t=eval(e)
assert s!=t, "mutation changes nothing"
open(p,'w').write(t)
PY
(cd $M/src && diff -u ${REPO:-/repo}/$f $f || true)
for i in "$@"; do timeout 800 python3 /verif/tools/driver.py $i --src $M/src --build $M/build 2>&1 | tail -25; done
