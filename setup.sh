#!/bin/bash
# Everything is built by the checks themselves; only verify that the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
java -version >/dev/null 2>&1
g++ --version >/dev/null; clang++ --version >/dev/null; python3 --version >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
