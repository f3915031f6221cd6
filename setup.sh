#!/bin/bash
# builds the harness, the command line tool and the Python extension in both flavours
cd "$(dirname "$0")" || exit 1
exec /usr/bin/python3 check.py --build
