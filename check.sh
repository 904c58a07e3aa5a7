#!/bin/bash
# check.sh PROPERTY... | all
cd "$(dirname "$0")" && exec python3 analyzer/sa/check.py "$@"
