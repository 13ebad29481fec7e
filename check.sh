#!/bin/bash
# check.sh PROP [--tier quick|thorough]
cd "$(dirname "$0")" && PYTHONHASHSEED=0 exec python3-vt dv/main.py "$@"
