#!/bin/bash
# check.sh C01 quick|thorough | check.sh C01 --replay FILE
exec python3 "$(dirname "$0")/mc/run.py" "$@"
