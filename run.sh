#!/bin/bash
# run.sh <property>: decides one property on /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 VERIF_ROOT="$here"
if [ ! -x "$here/bin/checker" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$here/bin/checker" -print -quit)" ]; then
  "$here/setup.sh" || exit 2
fi
exec "$here/bin/checker" "$@"
