#!/bin/bash
# check.sh ID [quick|thorough] | check.sh --replay FILE | check.sh --setup
set -u
AXV_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export AXV_ROOT GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
[ "${1:-}" = --replay ] && set -- --replay "$(realpath "$2")"
cd "$AXV_ROOT/harness" || exit 2
mkdir -p "$AXV_ROOT/.build"
go build -o "$AXV_ROOT/.build/axv.$$" ./cmd/axv || { rm -f "$AXV_ROOT/.build/axv.$$"; exit 2; }
mv -f "$AXV_ROOT/.build/axv.$$" "$AXV_ROOT/.build/axv" || exit 2
case "${1:-}" in
  --replay) exec "$AXV_ROOT/.build/axv" replay "$2" ;;
  --setup) exec "$AXV_ROOT/.build/axv" setup ;;
  *) [ -n "${2:-}" ] && export VERIF_TIER="$2"
     exec "$AXV_ROOT/.build/axv" check "$1" ;;
esac
