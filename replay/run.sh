#!/bin/bash
# run.sh ID: builds and runs one driver by hand
cd "$(dirname "$0")/.." && python3-vt -c "
import sys; sys.path.insert(0,'.')
from fvc import build as B
print(*B.native('replay/$1.cpp', B.tmpdir()+'/x', 300, stress=len(sys.argv) > 1))" $2
