#!/bin/bash
# Builds the analyser into /verif/.bin (ignored by git).
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .bin
cd checker && go build -o ../.bin/checker.$$ . && mv ../.bin/checker.$$ ../.bin/checker
