#!/bin/sh
# check.sh ID [quick|thorough] ; check.sh --replay FILE ; check.sh --setup
cd "$(dirname "$0")" || exit 2
case "$2" in quick|thorough) VERIF_TIER=$2; export VERIF_TIER; set -- "$1";; esac
exec python3 tools/check.py "$@"
