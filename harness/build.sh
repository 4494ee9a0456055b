#!/bin/bash
# build.sh <dir> [out]: build the harness into <dir>/harness from $VERIF_REPO.
# build.sh sched <dir> [out]: the same for the concurrency checks.
# build.sh gzip <dir>: build the gzip command into <dir>/gzip.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=${VERIF_REPO:-/repo}
if [ "$1" = gzip ]; then
	cd "$R"
	exec go build -mod=readonly -o "$2/gzip" ./cmd/gzip
fi
if [ "$1" = sched ]; then
	# The harness with the code under test rewritten for controlled
	# scheduling, under the race detector.
	W=$2
	cp "$D/go.sum" "$W/go.sum"
	sed "s#=> /repo#=> $R#" "$D/go.mod" > "$W/go.mod"
	cd "$D"
	[ -x "$W/xform" ] || go build -modfile="$W/go.mod" -o "$W/xform" ./xform
	rm -rf "$W/x" && mkdir "$W/x"
	DEPS=
	for m in bufferpool buffer/v3; do
		d=$(go list -modfile="$W/go.mod" -m -f '{{.Dir}}' github.com/chronos-tachyon/$m 2>/dev/null) && [ -d "$d" ] || continue
		c=$W/dep-${m%/*}
		rm -rf "$c" && cp -r "$d" "$c" && chmod -R u+w "$c"
		echo "replace github.com/chronos-tachyon/$m => $c" >> "$W/go.mod"
		DEPS="$DEPS $c"
	done
	for o in overlay overlay-none; do
		for mode in sched free; do
			"$W/xform" "$R" "$W/x" "$W/overlay-sched.json" "$D/$o" $mode $DEPS
			if CGO_ENABLED=1 go build -race -gcflags=all=-d=checkptr=0 -tags sched -modfile="$W/go.mod" -overlay="$W/overlay-sched.json" -o "${3:-$W/harness}" . 2>"$W/sched.$o.$mode"; then
				[ $mode = sched ] || cat "$W/sched.$o.sched" >> "$W/x/mode"
				exit 0
			fi
		done
	done
	cat "$W/sched.overlay.free"
	exit 1
fi
W=$1
cp "$D/go.sum" "$W/go.sum"
sed "s#=> /repo#=> $R#" "$D/go.mod" > "$W/go.mod"
cd "$D"
for o in overlay overlay-none; do
	echo "{\"Replace\": {\"$R/zz_vsum/zz_vsum.go\": \"$D/$o/zz_vsum.go\"}}" > "$W/overlay.json"
	go build -modfile="$W/go.mod" -overlay="$W/overlay.json" -o "${2:-$W/harness}" . 2>"$W/build.$o" && exit 0
done
cat "$W/build.overlay"
exit 1
