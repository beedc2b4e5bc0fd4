#!/bin/bash
# Builds the framework offline from the committed files.
set -e
cd "$(dirname "$0")"
python3 lib/setup.py
