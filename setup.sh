#!/bin/bash
# nothing to build: TLC reads the specifications, the checks import /repo directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v tlc >/dev/null && test -x /opt/venv/bin/python && test -x /usr/bin/mpiexec.openmpi
