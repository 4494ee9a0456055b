#!/bin/bash
# check.sh <property> <quick|thorough>   rebuild from /repo and run one check
# check.sh replay <file>                 re-run the case named in a replay file
# check.sh setup                         build everything once (warms the build cache)
# check.sh build <out>                   only build the harness
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0 GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
export VERIF_DIR="$V" VERIF_REPO="$REPO"
W=$(mktemp -d /tmp/vcheck.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export VERIF_GZIP="$W/gzip"
export GORACE="halt_on_error=1 exitcode=66"
# build [property]: the harness that decides the property (all if none given).
build() {
	case "${1:-}" in
	P17 | P18 | P24) "$V/harness/build.sh" sched "$W" && VERIF_SCHED=$(head -n 1 "$W/x/mode") && export VERIF_SCHED ;;
	P22) "$V/harness/build.sh" "$W" && "$V/harness/build.sh" gzip "$W" ;;
	P31) "$V/harness/build.sh" "$W" "$W/native" && export VERIF_NATIVE="$W/native" &&
		GOARCH=386 "$V/harness/build.sh" "$W" && GOARCH=386 "$V/harness/build.sh" gzip "$W" ;;
	*) "$V/harness/build.sh" "$W" ;;
	esac || { echo "cannot build the harness against $REPO"; exit 2; }
}
case "$1" in
setup)
	build P18; build P22; build P31; exit 0 ;;
build)
	build; cp "$W/harness" "$2"; exit 0 ;;
replay)
	build "$(sed -n 's/.*"property": "\(P[0-9]*\)".*/\1/p' "$2" | head -n 1)"
	(cd "$W" && "$W/harness" replay "$2"); rc=$? ;;
*)
	build "$1"
	(cd "$W" && "$W/harness" run -prop "$1" -tier "${2:-quick}" -evidence "$V/evidence/$1.json" \
		-replays "$V/evidence/replays" -known "$V/KNOWN_FINDINGS.txt" ${3:+-secs $3}); rc=$? ;;
esac
exit $rc
