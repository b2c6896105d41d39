#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the verifier from the committed
# sources if need be and decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
./setup.sh >/dev/null 2>.build.log.$$ || { cat .build.log.$$; rm -f "$PWD/.build.log.$$"; exit 2; }
rm -f "$PWD/.build.log.$$"
exec .build/gover check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
