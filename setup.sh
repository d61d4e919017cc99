#!/bin/bash
# builds everything the checks need (they rebuild it themselves as well)
set -eu
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p build evidence
./tools/build.sh all
