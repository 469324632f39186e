#!/bin/bash
# Builds the exporter and parses /repo once so that the checks start warm.
set -e
cd "$(dirname "$0")/.."
bash tool/build.sh
cd checks && python3 -c "from sa.load import load; load(); load(defs=['-DNDEBUG'])"
