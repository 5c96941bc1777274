#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" && exec python3 engine/run.py "$@"
