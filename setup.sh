#!/bin/sh
# Builds the harness crates against /repo's working tree. Checks rebuild what they need themselves.
cd "$(dirname "$0")" || exit 2
exec python3 tools/setup.py
