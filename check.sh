#!/bin/bash
# check.sh PROPERTY TIER: decide one property on /repo's working tree.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
if ! (cd gosym && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym); then
	echo "ERROR building gosym"
	exit 2
fi
set +e
exec bin/gosym check -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
