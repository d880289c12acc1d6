#!/bin/bash
# Nothing is built ahead of time: every check compiles what it needs from the tree
# it judges.  This only makes sure that the interpreter and libraries are there.
cd "$(dirname "$0")" || exit 3
/opt/venv/bin/python -B -c 'import numpy, scipy, cv2, sklearn, simplejson, plumbum' && command -v gcc >/dev/null && echo ready
