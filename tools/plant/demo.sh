#!/bin/bash
# run in the root of the repository, after its build
exec python3 "$(dirname "$0")/demo.py"
