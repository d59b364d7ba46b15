#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property of /repo's current tree by static analysis.
cd "$(dirname "$0")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=${2:-${VERIF_TIER:-quick}}
B=$V/.build
mkdir -p "$B" || exit 2
export TMPDIR=${TMPDIR:-/tmp}
if ! (cd lint && go build -o "$B/finchlint.$$" .) 2>"$B/build.$$.log"; then
  cat "$B/build.$$.log"; rm -f "$B/build.$$.log" "$B/finchlint.$$"
  echo "finchlint does not build"; exit 2
fi
rm -f "$B/build.$$.log"
"$B/finchlint.$$" -repo "${FINCH_REPO:-/repo}" -verif "$V" -prop "$1" -tier "$T" ${EVIDENCE_DIR:+-out "$EVIDENCE_DIR"}
rc=$?
rm -f "$B/finchlint.$$"
exit $rc
