#!/bin/bash
# Builds the harnesses once, to warm the build cache and to show that they build. The checks build
# them again from the tree as it then is.
set -u
cd "$(dirname "$0")" || exit 1
source ./props.sh
rc=0
for m in $(printf '%s\n' "${MODULE_OF[@]}" | sort -u); do
  done_=" "
  for p in $(printf '%s\n' "${!MODULE_OF[@]}" | sort); do
    [ "${MODULE_OF[$p]}" = "$m" ] || continue
    key="${HARNESS_OF[$p]}/${FLAGS_OF[$p]:-}/${BIN_OF[$p]:-}"
    case "$done_" in *" $key "*) continue ;; esac
    done_="$done_$key "
    VERIF_BUILD_ONLY=1 ./run.sh "$p" || rc=1
  done
done
exit $rc
