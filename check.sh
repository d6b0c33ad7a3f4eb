#!/bin/bash
# check.sh ID TIER: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec python3 -m sa.check "$@"
