#!/bin/sh
# Nothing to build: the checks are Python and import the code from /repo's working tree.
cd "$(dirname "$0")" && /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo/python"); import lxml, polib, iniparse, fluent.syntax' && mkdir -p evidence replays
