#!/bin/bash
# Run once before the checks: compile the reference implementations and validate them against
# independent implementations present on the machine. Nothing is kept.
set -e
cd "$(dirname "$0")"
D=$(mktemp -d); trap 'rm -rf -- "$D"' EXIT
g++ -std=c++17 -O2 -w -I. -shared -fPIC ref/reflib.cpp -o "$D/libref.so"
python3 ref/validate.py "$D/libref.so"
