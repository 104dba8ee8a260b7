#!/bin/bash
# check.sh ID [CASE]: rebuild from /repo and run the check of one property.
cd "$(dirname "$0")" || exit 2
mkdir -p .build
export VERIF_ROOT="$PWD"
case "$1" in
P23) variant=race ;;
P31 | P34) variant=cli ;;
*) variant= ;;
esac
if ! ./build.sh $variant >.build/build.log 2>&1; then
	cat .build/build.log >&2
	exit 2
fi
exec .build/hclmon check "$@"
