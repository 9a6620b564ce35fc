#!/bin/sh
# Nothing has to be built: the checks import /repo/src directly. This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=lib:/repo/src /opt/venv/bin/python -W ignore -c "
import vt, oidcrp, oidcmsg, cryptojwt, requests, hypothesis
print('hypothesis', hypothesis.__version__, 'oidcrp', oidcrp.__file__)"
