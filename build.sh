#!/bin/bash
# Builds the analyser into the git-ignored bin folder.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin
cd tool && go build -o ../bin/cyphercheck .
