#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m mirv.check "$@"
