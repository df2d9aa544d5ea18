#!/bin/bash
# Nothing persists between runs, so there is nothing to install: make sure the
# tools are there and that the harness builds against /repo.
set -e
cd "$(dirname "$0")"
for t in go java python3; do command -v $t > /dev/null; done
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys; sys.path.insert(0, "lib")
import core
c = core.Ctx("setup", "quick", 1)
try:
    c.build()
finally:
    c.cleanup()
P
