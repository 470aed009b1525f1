#!/bin/bash
# builds the harness once so that later checks only rebuild what changed
set -e
cd "$(dirname "$0")"
python3-vt sym/build.py
