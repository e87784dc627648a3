#!/bin/bash
# Builds both variants of the monitors once, so that later builds only have to recompile what changed.
set -e
VERIF="$(cd "$(dirname "$0")" && pwd)"
. "$VERIF/env.sh"
tmp="$(mktemp -d /tmp/vsetup.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cd "$VERIF/harness"
go build -o "$tmp/vmon" ./cmd/vmon
go build -race -o "$tmp/vmon-race" ./cmd/vmon
go test ./ref/
