#!/bin/bash
# builds the symbolic execution engine and the run-time models into /verif/build
set -e
cd "$(dirname "$0")"
bash engine/build.sh
bash tools/models.sh
