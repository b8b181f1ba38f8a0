#!/bin/bash
# Builds the analyser and warms the export data of the analysed configurations.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/checker/env.sh"
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/checker" && go build -o "$here/bin/rpmcheck" .)
