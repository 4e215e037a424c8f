#!/bin/bash
# builds the libTooling extractor (checks build it themselves when it is missing)
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0,"sa/py"); import load; print(load.tool())'
