#!/bin/bash
# run.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
exec python3 -B sa/check.py "$1" "${2:-quick}"
