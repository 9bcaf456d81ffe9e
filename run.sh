#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
tier="${2:-${VERIF_TIER:-quick}}"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/geoqlsym.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
(cd engine && go build -o "$work/geoqlsym" .) || exit 2
"$work/geoqlsym" check "$1" -tier "$tier" -root "$PWD" -work "$work"
