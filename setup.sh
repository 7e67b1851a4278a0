#!/bin/bash
# Builds the analyser once (warms the build cache); needs no network.
. /opt/vp/env.sh >/dev/null 2>&1
cd "$(dirname "$0")/tool" && go build -o /dev/null ./cmd/rdapcheck
