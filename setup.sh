#!/bin/bash
# Builds the driver and the dependencies of the crate under analysis.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
./extract.sh build/facts.setup.json
rm -f build/facts.setup.json
python3 check.py P01
