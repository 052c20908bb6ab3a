#!/bin/bash
# mutpatch.sh <patch|-R commit> <id>...: runs checks against a scratch copy with the patch applied (or a fix commit reverted)
set -e
M=/tmp/mut; rm -rf /tmp/mut/src; mkdir -p $M/src; (cd /repo && tar c --exclude=./_build --exclude=./.git .) | tar x -C $M/src
if [ "$1" = -R ]; then git -C /repo show "$2" | (cd $M/src && git apply -R -); shift 2; else (cd $M/src && git apply "$1"); shift; fi
for i in "$@"; do timeout 800 python3 /verif/tools/driver.py $i --src $M/src --build $M/build 2>&1 | tail -25; done
