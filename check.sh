#!/bin/bash
# check.sh Cxx: decide one property against /repo's working tree
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B harness/main.py "$1"
