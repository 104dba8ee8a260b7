#!/bin/bash
# Builds the monitor program from the harness and the current tree of /repo.
# With "race" also builds the variant with the race detector, with "cli" the
# command line tools.
set -e
cd "$(dirname "$0")/harness"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
mkdir -p ../.build
go build -o ../.build/hclmon ./cmd/hclmon
for what in "$@"; do
	case "$what" in
	cli)
		out=$(cd ../.build && pwd)
		(cd /repo && go build -o "$out/" ./cmd/hclfmt ./cmd/hcldec ./cmd/hclspecsuite)
		;;
	race) CGO_ENABLED=1 go build -race -o ../.build/hclmon.race ./cmd/hclmon ;;
	esac
done
