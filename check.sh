#!/bin/bash
# check.sh PROPERTY TIER
cd "$(dirname "$0")" && exec python3 engine/run.py "$1" "$2"
