#!/bin/bash
# Builds the framework from the committed files.
cd "$(dirname "$0")" || exit 2
exec python3-vt lib/setup.py
