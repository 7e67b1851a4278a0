#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Builds the analyser from /verif/tool and runs one property's rule on /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
id=$1
tier=${2:-${VERIF_TIER:-quick}}
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
(cd "$here/tool" && go build -o "$out/rdapcheck" ./cmd/rdapcheck) || exit 2
"$out/rdapcheck" -property "$id" -repo "${VERIF_REPO:-/repo}" -verif "$here" -tier "$tier"
