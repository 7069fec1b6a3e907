#!/bin/bash
# check.sh ID [quick|thorough]: analyses the current working tree of /repo
cd "$(dirname "$0")" || exit 2
here=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
./build.sh >/dev/null 2>&1 || { ./build.sh; echo "checker does not build"; exit 2; }
exec "$here/.bin/distcheck" -repo "${DISTCLUS_REPO:-/repo}" -out "$here" -tier "${2:-quick}" check "$1"
