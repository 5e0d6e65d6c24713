#!/bin/bash
# check.sh PROPERTY [quick|thorough] [generator]: build the harness against the
# working tree of /repo and run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="${1:?usage: check.sh PROPERTY [tier] [generator]}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_DIR="$here"
bld="$(mktemp -d /tmp/vfbuild-XXXXXX)" || exit 2
trap 'rm -rf "$bld"' EXIT
vf_build "$bld" "$id" || { echo "no verdict: the harness does not build against this tree"; exit 2; }
"$bld/vf" check "$id" ${3:+"$3"}
rc=$?
exit $rc
