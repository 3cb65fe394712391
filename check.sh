#!/bin/bash
# bash check.sh <property> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 3
exec python3 tools/run.py "$@"
