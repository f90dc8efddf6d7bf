#!/bin/bash
# builds the verifier and the replay drivers once (fills the build cache).
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p .bin evidence
(cd gover && go build -o ../.bin/gover .) || exit 1
(cd replay && go build -o ../.bin/replay .) || exit 1
rm -f .bin/replay .bin/gover
