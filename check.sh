#!/bin/bash
# usage: check.sh ID...   decides the properties on /repo's current working tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
bash ./build.sh || exit 2
exec ./.bin/checker -repo "${REPO:-/repo}" -verif "$PWD" "$@"
