#!/bin/bash
# Builds the monitor once from the committed files (checks rebuild it against /repo's current tree).
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
build_harness && build_tool && build_sanitized thread && build_sanitized address && build_interpreted
