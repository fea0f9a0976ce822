#!/bin/sh
# Runs the built tool on the model beside this file; compares with the right answer.
d=$(cd "$(dirname "$0")" && pwd)
exec python3 "$d/demo.py" check
