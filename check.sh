#!/bin/bash
# check.sh ID [quick|thorough]: builds the verifier and checks one property against /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
(cd gov && go build -o ../bin/gov.$$ .) || { rm -f "$PWD/bin/gov.$$"; exit 2; }
mv -f "bin/gov.$$" bin/gov
VERIF_DIR="$PWD" exec bin/gov check "$@"
