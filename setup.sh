#!/bin/bash
# Nothing is compiled; the specification is parsed once and the code imported once.
cd "$(dirname "$0")" || exit 1
set -e
for m in HSDynamics ApiTrace CsysTrace SecTrace MCCore MCFrame MCCsys MCSection SpectrumTrace MCSpectrum ShellTrace MCShell; do (cd spec && tla-sany $m.tla >/dev/null); done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path.insert(0,"harness"); import hsenv; import hyperstatic.core'
echo ready
