#!/bin/bash
# Nothing needs to be prepared: every check builds what it needs from /repo. This verifies the tools are there.
cd "$(dirname "$0")" || exit 1
[ -x /opt/veriftools/pyvenv/bin/python ] || command -v python3 >/dev/null || exit 1
for t in gcc make as ld ar git bison; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
echo ok
