#!/bin/bash
# developer helper: rebuild the engine and run one entry with progress output
cd /verif/bin && python3 build.py >/tmp/build.log || { cat /tmp/build.log; exit 2; }
e=$1; shift
exec timeout ${TMO:-900} /verif/.build/engine/release/symx /verif/.build/ir/all.ll $e /tmp/o-$e.json --debug 1 "$@"
