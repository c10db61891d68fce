#!/bin/bash
# Nothing to compile: verify that the interpreter and the library under test load.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p "$here/evidence"
cd "$here" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, scipy, shapely; print('ok')"
