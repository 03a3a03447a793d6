#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decides one property on /repo's working tree
# check.sh --replay FILE               re-runs a recorded counterexample
# check.sh --setup                     builds the tool and warms the caches
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR=$PWD GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
export HOME=${HOME:-/root}
mkdir -p bin
(cd symgo && CGO_ENABLED=0 go build -o ../bin/symgo .) || exit 2
case $1 in
--setup)
	exec bin/symgo -warm ;;
--replay)
	exec bin/symgo -replay "$2" ;;
*)
	exec bin/symgo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
