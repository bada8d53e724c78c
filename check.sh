#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [-v] [--only SUB]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m vp.run "$@"
