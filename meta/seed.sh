#!/bin/bash
# usage: seed.sh ID...   validate planted bugs in a scratch copy of /repo (tests pass, demo discriminates)
export HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=/tmp/seedcopy.$$.$id
  rm -rf "/tmp/seedcopy.$$.$id"; cp -a "${VERIF_REPO:-/repo}" "$S"; D=/tmp/seeddemo.$$.$id; cp -a "$V/seeded/$id" "$D"
  rm -f "$D/patch.diff" "$D/meta.json"
  ( cd "$S" && timeout 300 bash "$D/demo.sh" >/tmp/seed.$id.clean 2>&1 ); a=$?
  if ( cd "$S" && git apply "$V/seeded/$id/patch.diff" ); then
    ( cd "$S" && timeout 600 /opt/venv/bin/python -m pytest -q tests -p no:cacheprovider --timeout=120 >/tmp/seed.$id.tests 2>&1 ); t=$?
    ( cd "$S" && git checkout -q tests 2>/dev/null; timeout 300 bash "$D/demo.sh" >/tmp/seed.$id.bug 2>&1 ); b=$?
    echo "$id clean=$a tests=$t bug=$b $( [ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] && echo OK || echo BAD )"
  else echo "$id patch does not apply BAD"; fi
  rm -rf "/tmp/seedcopy.$$.$id" "/tmp/seeddemo.$$.$id"
done
