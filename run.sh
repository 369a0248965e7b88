#!/bin/bash
# usage: run.sh PROPERTY...   analyses /repo's current source
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -x "$here/bin/checker" ] || [ -n "$(find "$here/checker" -name '*.go' -newer "$here/bin/checker" -not -path '*/vendor/*' -print -quit)" ]; then
  "$here/setup.sh" || { echo "cannot build the checker"; exit 2; }
fi
export VERIF_ROOT="$here"
exec "$here/bin/checker" "$@"
