#!/bin/bash
# Builds the engines once, so that a check only rebuilds what a change in /repo touches.
cd "$(dirname "$0")" && ./build.sh symx checked release && ./build.sh trees && ./build.sh treesnat && ./build.sh kreplay && python3 -c 'import sys; sys.path.insert(0, "runner"); import kani; r, o = kani.codegen(); print(o[-2000:]); sys.exit(r != 0)'
