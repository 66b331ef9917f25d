#!/bin/bash
# Nothing to build: the checks import marEx from /repo's working tree. Verify that the interpreter and the simulator import.
cd "$(dirname "$0")" || exit 2
exec bash check.sh C01 --selftest
