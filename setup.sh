#!/bin/bash
# Nothing to build: checks run TLC and the interpreter directly. Verify the toolchain.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "import numpy, pandas, xarray" || exit 1
java -version 2>/dev/null || exit 1
mkdir -p evidence
for m in spec/*.tla; do
  grep -q "MODULE $(basename "$m" .tla) " "$m" || { echo "bad module $m"; exit 1; }
done
echo setup ok
