#!/bin/bash
# usage: run.sh <property id>
exec python3 "$(dirname "$(readlink -f "$0")")/run.py" "$1"
