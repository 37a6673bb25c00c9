#!/bin/sh
# nothing to build: checks import fides from /repo's working tree
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c 'import numpy, scipy, h5py; import mc.core'
