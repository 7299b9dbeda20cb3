#!/bin/bash
# Builds the checker (gosmt) from /verif/engine into /verif/bin.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
(cd engine && go build -o ../bin/gosmt.$$ . && mv ../bin/gosmt.$$ ../bin/gosmt)
