#!/bin/bash
# Builds the fact extractor (also done on demand by every check).
set -e
cd "$(dirname "$0")"
python3 core.py --build
