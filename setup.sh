#!/bin/bash
# Builds the harness once, to show that it builds and to warm the Go cache.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
git --version
for id in C01 C15 C29; do
	bld="$(mktemp -d /tmp/vfbuild-XXXXXX)"
	vf_build "$bld" "$id"
	"$bld/vf" list >/dev/null
	rm -rf "$bld"
done
