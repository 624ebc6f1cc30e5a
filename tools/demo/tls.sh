#!/bin/bash
# Runs the demonstration against target/debug/libturtls.so of the current directory.
exec python3 -B "$(dirname "$0")/demo.py"
