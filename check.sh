#!/bin/bash
# usage: check.sh <property> [args of the runner, e.g. -replay FILE | -monitor NAME -index N | -factor F]
# Builds the monitors against the current working tree of /repo and runs the check of one property.
# Exit: 0 held, 1 violation (VIOLATION line), other: no verdict.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF/env.sh"
id="$1"; shift
flags=
[ "$id" = C17 ] && flags=-race
tmp="$(mktemp -d /tmp/vcheck.XXXXXX)" || exit 4
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
cd "$VERIF/harness" || exit 4
if ! go build $flags -o "$tmp/vmon" ./cmd/vmon; then
  echo "INCONCLUSIVE property=$id build failed"
  exit 4
fi
"$tmp/vmon" -verif "$VERIF" -prop "$id" "$@"
