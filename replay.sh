#!/bin/bash
# replay.sh CASE...: build /repo's current tree with the oracle and run one case on it (exit 1: it fails)
cd "$(dirname "$0")" && exec python3-vt replay.py "$@"
