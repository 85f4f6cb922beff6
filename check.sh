#!/bin/sh
# check.sh ID [quick|thorough]
exec python3 "$(dirname "$0")/lib/run_check.py" "$@"
