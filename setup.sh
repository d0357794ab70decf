#!/bin/bash
# Warms the build cache; everything else is built by the checks themselves.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
python3 - <<'P'
import sys; sys.path.insert(0, 'lib')
import vlib
c = vlib.Ctx('setup', 'quick', 1)
try:
    vlib.build(c)
finally:
    c.close()
P
