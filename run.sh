#!/bin/bash
# run.sh ID: builds the check of property ID against /repo's working tree, and runs it.
# VMON_REPLAY=FILE runs only the case that a replay file names.
id=${1:?usage: run.sh ID}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here"
export HOME="${HOME:-/root}" PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off
[ -d /root/go/pkg/mod ] && export GOMODCACHE=/root/go/pkg/mod
unset GODEBUG GOMAXPROCS GOMEMLIMIT GOGC
dir=$(echo "$id" | tr 'A-Z' 'a-z')
out=$(mktemp -d /tmp/vrun-XXXXXX) || exit 2
chmod 755 "$out"
trap 'rm -rf "$out"' EXIT
race=
[ -f "$here/harness/cmd/$dir/RACE" ] && race=-race
cd "$here/harness" || exit 2
go build $race -o "$out/check" "./cmd/$dir" || { echo "the check does not build" >&2; exit 2; }
if [ -f "$here/harness/cmd/$dir/GOTOR" ]; then
	grace=-race
	grep -q plain "$here/harness/cmd/$dir/GOTOR" && grace=
	(cd /repo/src && GOFLAGS="-mod=mod -buildvcs=false" go build $grace -o "$out/gotor" .) || { echo "gotor does not build" >&2; exit 2; }
	export VMON_GOTOR="$out/gotor"
fi
"$out/check"
