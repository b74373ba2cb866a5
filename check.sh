#!/bin/sh
# check.sh ID: decides one property for /repo's working tree
exec python3 "$(dirname "$0")/tools/check.py" "$@"
