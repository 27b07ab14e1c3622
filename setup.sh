#!/bin/bash
# Builds the fact extractor and extracts the facts of the current tree; the checks
# re-extract every translation unit whose source or headers differ.
set -e
cd "$(dirname "$0")"
mkdir -p extractor/bin evidence out
python3 -c "from sa import facts; facts.load(); print('ok')"
