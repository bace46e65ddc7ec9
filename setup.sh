#!/bin/bash
# builds the extractor (clang LibTooling front end)
set -e
cd "$(dirname "$0")"
python3-vt -c "from engine import frontend; print(frontend.extractor())"
