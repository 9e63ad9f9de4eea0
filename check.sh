#!/bin/bash
# check.sh <property id>: decide one property on /repo's current working tree
cd "$(dirname "$0")" && exec python3 -B sa/main.py "$1"
