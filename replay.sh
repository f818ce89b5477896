#!/bin/bash
# usage: replay.sh REPLAY.json : runs the recorded inputs of a violation against the code of /repo compiled with the contract
. "$(dirname "$0")/env.sh"
build_govc
exec "$VERIF/bin/govc" replay "$@"
