#!/bin/bash
# claim.sh PROP MESSAGE: takes over the staged seeds of a property, rebuilds, regenerates the manifest, runs the seeds, commits
set -e
P=$1; p=$(echo $P | tr A-Z a-z)
for i in /tmp/sd2/$p?; do [ -d "$i" ] && cp -r $i /verif/seeded/; done
cd /verif; bash setup.sh >/dev/null; python3 tools/manifest.py
(cd seeded; bash ../tools/catch.sh ${p}?)
git add -A; git commit -qm "$P: $2"; git status --short | head -3
