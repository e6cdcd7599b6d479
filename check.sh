#!/bin/bash
# check.sh Cxx : run one check
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python checks/"$(echo "$1" | tr A-Z a-z)".py
