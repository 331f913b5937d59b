#!/bin/bash
# Decides a property: builds the checker and runs it on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off GONOSUMDB='*'
[ -n "$HOME" ] || export HOME=/root
bin=$(mktemp -d /tmp/gosym-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! go build -o "$bin/gosym" ./cmd/gosym; then
  echo "the checker does not build"
  exit 2
fi
"$bin/gosym" -dir "$PWD" "$@"
