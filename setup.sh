#!/bin/bash
# Builds the verifier from the committed files (offline) and warms the build cache.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
(cd gvc && GOFLAGS=-mod=mod go build -o ../bin/gvc .)
