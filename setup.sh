#!/bin/bash
# Builds everything once (warms the build cache); every check rebuilds from /repo's working tree anyway.
cd "$(dirname "$0")" || exit 1
. ./env.sh || exit 1
tmp=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd harness && go build -o "$tmp/check" ./cmd/check && "$tmp/check" list >/dev/null && mkdir "$tmp/ins" && go run ./cmd/instrument /repo "$tmp/ins" && go build -tags verifsched -overlay "$tmp/ins/overlay.json" -o "$tmp/check31" ./cmd/check
