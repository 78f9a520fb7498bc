#!/bin/sh
# Builds the analyser (offline) if it is missing or older than its sources.
cd "$(dirname "$0")" || exit 2
mkdir -p bin
if [ ! -x bin/sa ] || [ -n "$(find sa -newer bin/sa -name '*.go' -print -quit)" ]; then
	(cd sa && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOTOOLCHAIN=local go build -o ../bin/sa.tmp.$$ ./cmd/sa) || exit 2
	mv bin/sa.tmp.$$ bin/sa
fi
