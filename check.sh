#!/bin/bash
# Decides one property; see tools/check.py.
exec python3 "$(dirname "$0")/tools/check.py" "$@"
