#!/bin/bash
# try.sh ID...: apply a seeded change to a scratch copy and run its property's check.
for id in "$@"; do
  S=/verif/seeded/$id; D=$(mktemp -d /tmp/seedtry.XXXXXX)
  git clone -q /repo $D/r && git -C $D/r apply $S/patch.diff || { echo "$id: does not apply"; rm -rf $D; continue; }
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  out=$(VERIF_REPO=$D/r timeout 900 /verif/check.sh $p ${TIER:-quick} 2>&1); rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" <<<"$out"; then echo "CAUGHT $id"; else echo "MISSED $id rc=$rc"; fi
  [ -n "$V" ] && tail -5 <<<"$out" | cut -c1-400
  rm -rf $D
done
