#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the monitors against /repo's working tree and runs those of one property.
# Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Anything else: no verdict.
set -u
pid=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]*|'') seed=1;; esac
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"

if [ "$tier" = thorough ] && [ "$pid" = X08 ]; then
    build_release || exit 2
    "$RELEASE" check "$pid" --tier thorough --seed "$seed" --root "$here" --bin "release=$RELEASE"
elif [ "$tier" = thorough ]; then
    build_checked || exit 2
    build_release || exit 2
    bins=(--bin "checked=$CHECKED" --bin "release=$RELEASE")
    if build_asan; then
        bins+=(--bin "asan=$ASAN")
    else
        echo "note: no AddressSanitizer build ($ASAN_WHY)"
    fi
    if [ "$pid" = X04 ]; then
        if build_tsan; then
            bins+=(--bin "tsan=$TSAN")
        else
            echo "note: no ThreadSanitizer build ($TSAN_WHY)"
        fi
    fi
    "$CHECKED" check "$pid" --tier thorough --seed "$seed" --root "$here" "${bins[@]}"
elif [ "$pid" = X08 ]; then
    # what users run: debug assertions may take their time
    build_release || exit 2
    "$RELEASE" check "$pid" --tier quick --seed "$seed" --root "$here" --bin "release=$RELEASE"
else
    build_checked || exit 2
    bins=(--bin "checked=$CHECKED")
    # hostile blocks are also read under the AddressSanitizer
    if [ "$pid" = X01 ] && build_asan; then
        bins+=(--bin "asan=$ASAN")
    fi
    "$CHECKED" check "$pid" --tier quick --seed "$seed" --root "$here" "${bins[@]}"
fi
