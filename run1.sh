#!/bin/sh
# development helper: run one property with a kept kernel cache
VERIF_SIM_CACHE=${VERIF_SIM_CACHE:-/tmp/nbcA} exec /opt/venv/bin/python /verif/check.py "$@"
