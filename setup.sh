#!/bin/sh
# builds the library and every driver once, so that the checks build incrementally
exec python3 "$(dirname "$0")/tools/setup.py"
