#!/bin/bash
# pycheck.sh PROPERTY TIER: checks a property of the Python library in /repo/python.
cd "$(dirname "$0")"
export PYTHONPATH=/repo/python PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PROCSTAR_AGENT_HOST PROCSTAR_AGENT_PORT PROCSTAR_AGENT_TOKEN PROCSTAR_AGENT_CERT PROCSTAR_AGENT_KEY
exec /opt/vp/venv/bin/python -B py/main.py check "$1" "${2:-quick}"
