#!/bin/bash
# Builds the tool from /repo's working tree (hooks on) and the I/O shim.
cd "$(dirname "$0")" && exec python3 -c '
import sys; sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
from vm import core
print("built, hooks:", core.build()); print("asan:", core.build_asan())'
