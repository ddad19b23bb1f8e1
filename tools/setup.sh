#!/bin/sh
# Nothing is installed or cached: every check builds what it needs from /repo.
set -e
cd "$(dirname "$0")/.."
command -v java gcc python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence replay
