#!/bin/bash
# run.sh ID [tier]: build the analyser from /verif/checker and decide property ID on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export VERIF_DIR="${VERIF_DIR:-$here}"
tmp="$(mktemp -d /tmp/pdfcheck.XXXXXX)" || exit 3
trap 'rm -rf -- "$tmp"' EXIT
(cd "$here/checker" && go build -o "$tmp/pdfcheck" .) || { echo "cannot build the analyser"; exit 3; }
[ "$1" = setup ] && exit 0
"$tmp/pdfcheck" "$@"
