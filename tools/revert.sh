#!/bin/bash
# revert.sh COMMIT PROP...: undo one fix in a scratch clone; do the checks notice?
c=$1; shift
D=$(mktemp -d /tmp/revert.XXXXXX)
git clone -q /repo $D/r && git -C $D/r -c user.name=x -c user.email=x@x revert -n $c >$D/log 2>&1 || { echo "CONFLICT $c: $(git -C $D/r status --short | grep '^U' | tr '\n' ' ')"; rm -rf $D; exit; }
(cd $D/r && go build ./... 2>$D/b) || { echo "NOBUILD $c $(head -2 $D/b)"; rm -rf $D; exit; }
for p in "$@"; do
  out=$(VERIF_REPO=$D/r timeout 900 /verif/check.sh $p quick 2>&1); rc=$?
  grep -q "^VIOLATION property=$p" <<<"$out" && echo "CAUGHT $c $p" || echo "MISSED $c $p rc=$rc"
done
rm -rf $D
