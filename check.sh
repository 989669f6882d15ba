#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's working tree (see DESIGN.md).
cd "$(dirname "$0")"
exec python3 tools/check.py "$@"
