#!/bin/bash
# Builds the TLC module overrides and the harness.
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'bin')
import check; check.build()"
