#!/bin/sh
# Nothing is built: the specifications are interpreted by TLC and the code under test is imported from /repo.
cd "$(dirname "$0")" || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -version >/dev/null 2>&1
test -x /opt/venv/bin/python && test -f spec/Records.tla && mkdir -p evidence
