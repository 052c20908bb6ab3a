#!/bin/bash
# check.sh <property id>: runs the check of one property (see tools/driver.py)
cd "$(dirname "$0")" && exec python3 tools/driver.py "$@"
