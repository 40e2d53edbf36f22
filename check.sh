#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
. ./env.sh
here=$(pwd)
if ! bash ./build.sh; then
  echo "the analyser does not build"; exit 2
fi
exec ./bin/cyphercheck -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo /repo -evidence "$here/evidence" -known "$here/known_findings.txt"
