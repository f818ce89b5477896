#!/bin/bash
# builds the verifier from the committed source; every check does the same
. "$(dirname "$0")/env.sh"
build_govc
echo "govc built"
