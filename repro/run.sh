#!/bin/bash
# Runs the reproductions of the repaired defects against a tree (default /repo): all pass on the repaired
# tree; on the original tree (git -C /repo worktree add /tmp/x base) they fail.
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
printf '{"Replace":{"%s/defects_verif_test.go":"%s/defects_verif_test.go","%s/cpio/defects_verif_test.go":"%s/cpio/defects_verif_test.go","%s/fileutil/defects_verif_test.go":"%s/fileutil/defects_verif_test.go"}}' "$repo" "$here" "$repo" "$here" "$repo" "$here" > "$ov"
. /opt/vp/env.sh 2>/dev/null
cd "$repo" && go test -vet=off -overlay "$ov" -count=1 -run 'TestDefect' ./... "${@:2}"
