#!/bin/bash
# run.sh <property> <quick|thorough>
# Rebuilds the engines against /repo's working tree and decides one property.
cd "$(dirname "$0")" && exec python3 runner/check.py "$1" "${2:-quick}"
