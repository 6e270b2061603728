#!/bin/bash
# check.sh PROPERTY quick|thorough      search for violations of a property
# check.sh replay FILE [-v]             run a replay file
# check.sh build                        build only
# Builds the simulator around the code in /repo's working tree, outside /repo.
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOOS GOARCH GODEBUG GOMAXPROCS GOGC
B=$VERIF/.build
mkdir -p "$B" "$VERIF/evidence" || exit 2

# the sources of the code under test, without its tests
list() {
	cd "$REPO" && git -c safe.directory='*' ls-files -z --cached --others --exclude-standard |
		grep -zv '_test\.go$' | grep -zE '\.go$|^go\.(mod|sum)$' |
		while IFS= read -r -d '' f; do [ -f "$f" ] && printf '%s\0' "$f"; done
}
KEY=$( (list | sort -z | (cd "$REPO" && xargs -0 sha256sum); cd "$VERIF" && find instr simrt runner -type f | sort | xargs sha256sum; echo "$REPO") | sha256sum | cut -c1-20)
R=$B/$KEY/runner
if [ ! -x "$R" ]; then
	(
		flock 9
		[ -x "$R" ] && exit 0
		W=$B/$KEY.tmp
		rm -rf "$W" && mkdir -p "$W/src" || exit 2
		# older builds are not needed any more
		find "$B" -mindepth 1 -maxdepth 1 -type d ! -name "$KEY*" ! -name replays -mmin +120 -exec rm -rf {} +
		(cd "$REPO" && list | xargs -0 cp --parents -t "$W/src") || exit 2
		(cd "$VERIF/instr" && go build -o "$W/instr" .) || exit 2
		"$W/instr" -src "$W/src" -verif "$VERIF" -out "$W/gen" ./cmd/... ./filtering ./monitoring ./tdt ./scheme/... || exit 2
		(cd "$W/gen" && go build -trimpath -o "$W/runner" ./verif/runner) || exit 2
		rm -rf "$W/src" "$W/gen" "$W/instr"
		mv "$W" "$B/$KEY"
	) 9>"$B/lock" || { echo "ERROR: the simulator cannot be built around the code in $REPO"; exit 3; }
fi
case $1 in
build) exit 0 ;;
replay) shift; f=$1; shift; exec "$R" -mode replay -verif "$VERIF" -file "$f" "$@" ;;
esac
PROP=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
case $SEED in '' | *[!0-9]*) SEED=1 ;; esac
SECS=${VERIF_SECS:-}
if [ -z "$SECS" ]; then
	case $TIER in
	quick) SECS=45 ;;
	*) TIER=thorough; SECS=600 ;;
	esac
fi
exec "$R" -mode check -prop "$PROP" -tier "$TIER" -seed "$SEED" -secs "$SECS" -verif "$VERIF" \
	-evidence "$VERIF/evidence/$PROP.json" -replays "$B/replays"
