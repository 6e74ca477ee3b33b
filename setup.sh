#!/bin/bash
# Builds the compiler driver and a first fact base (the checks rebuild what changed since).
set -e
cd "$(dirname "$0")"
python3 engine/build.py std
