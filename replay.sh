#!/bin/bash
# usage: replay.sh FILE : re-executes the failing input of a replay file on /repo's current tree
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python conc/main.py --replay "$1"
