#!/bin/bash
# run.sh ID: decide one property on the source in /repo (JC_REPO overrides)
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ ! -x bin/joycheck ] || [ -n "$(find joycheck -newer bin/joycheck -name '*.go' | head -1)" ]; then
  bash ./setup.sh || exit 2
fi
exec bin/joycheck -prop "$1" "${VERIF_TIER:-quick}"
