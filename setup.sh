#!/bin/bash
# Builds the verifier and the drivers once, which also fills the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
(cd gov && go build -o ../bin/gov .) && (cd harness/srv && go build -o ../../bin/vharness .)
