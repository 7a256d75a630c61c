#!/bin/bash
export JAX_PLATFORMS=cpu
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
