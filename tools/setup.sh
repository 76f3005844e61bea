#!/bin/sh
# builds the reference model and cross-checks it; nothing here is needed by the checks, which build what they use
cd "$(dirname "$0")/.." && mkdir -p build evidence replays && python3 tools/selftest.py
