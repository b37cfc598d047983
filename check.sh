#!/bin/bash
# usage: check.sh <property id>
cd "$(dirname "$0")" || exit 2
exec python3-vt analysis/check.py "$@"
