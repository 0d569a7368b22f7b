#!/bin/bash
# builds the driver once, so that the Go build cache is warm; nothing is kept in /verif.
cd "$(dirname "$0")" && python3 - <<'P'
import sys
sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
from vlib import Check
c = Check("setup"); c.build(); c.close()
print("driver builds, tags:", c.tags)
P
