#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -x bin/vgo ] || bash setup.sh || exit 2
export HOME="${HOME:-/root}"
exec bin/vgo check -root "$PWD" -repo /repo -tier "${2:-${VERIF_TIER:-quick}}" "$1"
