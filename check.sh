#!/bin/bash
# usage: check.sh ID [tier]   -- one property's check, from /verif, against /repo
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m dst check "$@"
