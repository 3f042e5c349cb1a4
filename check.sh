#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 rules/ctx.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
