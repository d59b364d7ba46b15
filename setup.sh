#!/bin/bash
# Warms the Go build cache for the analyser (offline; needs only the module cache of the sandbox).
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p evidence .build
cd lint && go build -o ../.build/finchlint . && rm -f ../.build/finchlint
