#!/bin/bash
# run.sh setup | check ID [quick|thorough] | dev ARGS...
# Builds the harness against /repo's current working tree into a scratch directory and runs one check.
set -u
. /opt/vp/env.sh
export PATH=$PATH:/opt/veriftools/bin
export GOFLAGS="-mod=mod -buildvcs=false"
cd /verif/harness || exit 3
scratch=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 3
trap 'rm -rf "$scratch"' EXIT
go build -o "$scratch/verif" ./cmd/verif || { echo "CHECK-ERROR: the harness does not build against /repo" >&2; exit 3; }
case "${1:-}" in
  setup) command -v tlc >/dev/null || { echo "tlc missing" >&2; exit 3; }
         "$scratch/verif" list ;;
  check) [ -n "${3:-}" ] && export VERIF_TIER="$3"
         export VERIF_SCRATCH="$scratch"
         "$scratch/verif" check "$2"; exit $? ;;
  dev)   shift; "$scratch/verif" "$@"; exit $? ;;
  *) echo "usage: run.sh setup | check ID [quick|thorough]" >&2; exit 3 ;;
esac
