#!/bin/bash
# Unpacks the property-testing library next to the harness (each check does this itself if it has not been done).
cd "$(dirname "$(realpath "$0")")" || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -c 'import vf.boot; import hypothesis; print("hypothesis", hypothesis.__version__)'
