#!/bin/bash
# check.sh PROPERTY: exit 0 (held) or 1 (VIOLATION lines)
cd "$(dirname "$0")" || exit 2
exec python3-vt lib/check.py "$@"
