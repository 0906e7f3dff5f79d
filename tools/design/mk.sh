#!/bin/bash
# Writes DESIGN.md, tools/techniques.json and MANIFEST.json from the texts here, the harness and seeded/.
cd "$(dirname "$0")" || exit 1
cp head.md /verif/DESIGN.md && python3 props.py && python3 tail.py && python3 ../mkmanifest.py
