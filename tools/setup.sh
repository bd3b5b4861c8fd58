#!/bin/bash
# builds the engine, the parser generator and both harness builds once, offline
cd "$(dirname "$0")/.." && mkdir -p .cache evidence && python3 tools/build.py
