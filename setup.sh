#!/bin/bash
# Builds everything the quick checks need.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
build_checked || exit 1
build_release || exit 1
"$CHECKED" list >/dev/null
