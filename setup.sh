#!/bin/bash
# Checks build what they need from /repo themselves; this only verifies that
# the tools they use are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
command -v python3-vt clang++ >/dev/null
/opt/venv/bin/python -c 'import amaranth, amaranth_yosys, m5meta' 2>/dev/null \
  || /opt/venv/bin/python -c 'import amaranth, amaranth_yosys'
python3-vt -c 'import hypothesis'
echo setup ok
