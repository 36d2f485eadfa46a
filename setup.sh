#!/bin/bash
# Unpacks Hypothesis from the offline wheelhouse into .deps (run.sh repeats this when needed).
set -e
cd "$(dirname "$0")"
exec python3 tools/deps.py
