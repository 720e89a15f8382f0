#!/bin/bash
# Builds the symbolic executor (offline, from the committed sources).
set -e
cd "$(dirname "$0")"
make -s -j8 -C engine
mkdir -p evidence
