#!/bin/bash
# replay.sh FILE [times]: run one saved case against /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export VERIF_DIR="$here"
f="$(realpath "$1")"
id="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$f" | head -1)"
bld="$(mktemp -d /tmp/vfbuild-XXXXXX)" || exit 2
trap 'rm -rf "$bld"' EXIT
vf_build "$bld" "$id" || exit 2
"$bld/vf" replay "$f" ${2:-1}
