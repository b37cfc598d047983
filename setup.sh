#!/bin/bash
# builds the MIR dump driver and pre-computes the dump of the current /repo tree
cd "$(dirname "$0")" || exit 2
exec python3-vt -c "import sys; sys.path.insert(0,'analysis'); import common; print(common.ensure_dump())"
