#!/bin/bash
# setup.sh: builds the MIR dumper, the probe, rsh and its dump into /verif/build (offline)
cd "$(dirname "$0")" || exit 2
mkdir -p build
export PYTHONDONTWRITEBYTECODE=1
./build_tools.sh || exit 3
python3-vt -m mirv.build
