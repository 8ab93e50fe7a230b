#!/bin/bash
# Builds the harness.
cd "$(dirname "$0")/.." && python3 -c 'import sys; sys.path.insert(0, "tools"); import check; check.build()'
