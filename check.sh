#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine and decides the property.
# check.sh replay FILE: runs the counterexample in FILE on the compiled code again.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin="$here/engine/.bin/gosym"
if ! (cd "$here/engine" && mkdir -p .bin && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin"); then
	echo "engine does not build" >&2
	exit 2
fi
p=$1
if [ "$p" = replay ]; then
	exec "$bin" replay -root "$here" -repo "${VERIF_REPO:-/repo}" "$2"
fi
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
exec "$bin" check -root "$here" -repo "${VERIF_REPO:-/repo}" -property "$p" -tier "$tier" "$@"
