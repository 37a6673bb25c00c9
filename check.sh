#!/bin/sh
# check.sh ID [--tier T] | check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -m mc.run "$@"
