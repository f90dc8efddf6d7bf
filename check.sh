#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property of /repo's current tree.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p evidence .bin
bin=$(mktemp -p .bin gover.XXXXXX)
trap 'rm -f "$bin"' EXIT
(cd gover && go build -o "../$bin" .) || { echo "gover does not build"; exit 1; }
"$bin" check "$1" "$tier"
rc=$?
if [ $rc -gt 1 ]; then
  # the verifier itself broke down: nothing is proved, the replay decides
  "$bin" -noproof "the verifier ended with status $rc" check "$1" "$tier"
  rc=$?
fi
exit $rc
