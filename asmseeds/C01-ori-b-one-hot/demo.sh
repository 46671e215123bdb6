#!/bin/bash
# Exit 0 when the property holds for this input; run with cwd at the repository.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$D/demo.py"
