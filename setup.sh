#!/bin/sh
# nothing is compiled: check that interpreter, solver and proxies work
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore -m selftest.test_values 1 20
