#!/bin/bash
# Build what the checks need, so that they only rebuild what changed in /repo.
set -u
cd "$(dirname "$0")" || exit 3
exec ./check.sh --build
