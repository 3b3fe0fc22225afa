#!/bin/bash
# check.sh ID [quick|thorough]
exec python3 "$(dirname "$0")/check.py" "$@"
