#!/bin/bash
# warms nothing outside /verif/build; every check builds what it needs from /repo's current tree itself
cd "$(dirname "$0")" && mkdir -p build evidence && python3-vt -c "
import sys; sys.path[:0] = ['engine', 'rt']
import build, z3; print('ok')"
