#!/bin/bash
# Nothing is built: the checks are Python and run /repo's working tree directly.  Only test that the tools are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -c 'import numpy, scipy, matplotlib; from zmon import core, oracle, monitors; print("ready")'
