#!/bin/bash
# Builds the MIR fact extractor, the native solver and the dependency build (offline).
cd "$(dirname "$0")" || exit 2
python3 -c 'import sys; sys.path.insert(0, "lib"); import lin; lin._load(); sys.exit(0 if lin._native else 1)' || echo "native solver not built; the Python one is used"
exec python3 lib/facts.py
