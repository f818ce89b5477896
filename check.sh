#!/bin/bash
# usage: check.sh PROPERTY [tier]   (tier: quick | thorough; default $VERIF_TIER or quick)
. "$(dirname "$0")/env.sh"
build_govc
exec "$VERIF/bin/govc" check -verif "$VERIF" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
