#!/bin/sh
# replay.sh FILE: rebuilds the simulation of the property named in FILE from /repo and replays it. Exit 1: reproduced.
exec python3 "$(dirname "$0")/check.py" --replay "$1"
