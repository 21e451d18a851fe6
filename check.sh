#!/bin/bash
# bash /verif/check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")/tools" && exec python3 -B check.py "$@"
