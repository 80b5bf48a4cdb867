#!/bin/bash
# usage: check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=
exec /opt/venv/bin/python -W ignore -m symdev.run "$@"
