#!/bin/bash
# nothing to build: checks that the tools and the implementation are there
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import numpy, ama_xiv_combat_sim" || exit 1
mkdir -p evidence
echo ready
