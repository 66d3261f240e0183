#!/bin/bash
# run.sh <property>: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"
if [ ! -x bin/smverify ] || [ -n "$(find analyzer -maxdepth 1 -name '*.go' -newer bin/smverify 2>/dev/null | head -1)" ]; then
  ./setup.sh || exit 2
fi
exec bin/smverify -prop "$1" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
