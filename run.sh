#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decides one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/checker/env.sh"
new=
for f in "$here"/checker/*.go "$here"/checker/go.mod; do
	[ "$f" -nt "$here/bin/rpmcheck" ] && new=1
done
if [ ! -x "$here/bin/rpmcheck" ] || [ -n "$new" ]; then
	mkdir -p "$here/bin"
	(cd "$here/checker" && go build -o "$here/bin/rpmcheck.$$" . && mv "$here/bin/rpmcheck.$$" "$here/bin/rpmcheck") || exit 2
fi
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
exec "$here/bin/rpmcheck" -prop "$1" -verif "$here" -repo "${VERIF_REPO:-/repo}"
