#!/bin/bash
# builds the MIR driver and warms the dependency cache of the nightly check build
set -e
cd "$(dirname "$0")/.."
python3 -c "
import sys; sys.path.insert(0,'sa')
import lib; print(lib.dump())"
