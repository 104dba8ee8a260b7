#!/bin/bash
# Builds everything the checks use, from the committed files, offline.
cd "$(dirname "$0")" && exec ./build.sh race cli
