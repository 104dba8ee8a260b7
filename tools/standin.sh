#!/bin/sh
# Stands in for the decoder command in the check of the specification suite
# runner: answers with what was recorded next to the input file.
for f; do :; done
case "$*" in
*--var-refs*) k=refs ;;
*) k=value ;;
esac
. "$f.$k"
