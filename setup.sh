#!/bin/bash
# Warm the build cache. Every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
VERIF_EVIDENCE=$(mktemp -d) bash "$here/check.sh" C20 -total 8 -scale 0.5 || exit 1
VERIF_EVIDENCE=$(mktemp -d) bash "$here/check.sh" C18 -total 8 -scale 0.5 || exit 1
