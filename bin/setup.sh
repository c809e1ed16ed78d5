#!/bin/bash
# Build the extraction driver and the dependencies of /repo (all into .work/).
cd "$(dirname "$0")/.." || exit 1
mkdir -p .work evidence
bin/extract.sh "$PWD/.work/setup.json" "${PZ_REPO:-/repo}" || exit 1
rm -f "$PWD/.work/setup.json"
