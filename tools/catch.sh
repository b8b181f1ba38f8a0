#!/bin/bash
# catch.sh [ID...]: runs the check of each planted bug's property on a scratch copy with the bug applied.
export VERIF_SEED=1 S=${SEEDDIR:-/verif/seeded}
one() {
  s=$1; t=$(mktemp -d /tmp/catchXXXXXX); cp -a /repo "$t/repo"
  git -C "$t/repo" apply $S/$s/patch.diff || echo "$s: does not apply"
  p=$(python3 -c "import json;print(json.load(open('$S/$s/meta.json'))['property'])")
  mkdir -p $t/evidence; cp /verif/known_findings.txt $t/
  out=$(/verif/bin/rpmcheck -prop $p -repo "$t/repo" -verif "$t" 2>&1); rc=$?
  echo "$s $p exit=$rc $(echo "$out" | grep -v '^ *$' | head -3 | cut -c1-300 | tr '\n' ' ')"
  rm -rf "$t"
}
export -f one
cd $S; ls -d ${@:-*} | xargs -P 3 -I{} bash -c 'one {}' | sort
