# Builds /verif/build/gosym; sourced by check.sh and setup.sh.
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export GOCACHE="$here/build/gocache"
mkdir -p "$GOCACHE"
if [ ! -x "$here/build/gosym" ] || [ -n "$(find "$here/engine" -newer "$here/build/gosym" -name '*.go' -print -quit)" ]; then
	(cd "$here/engine" && GO111MODULE=on GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o "$here/build/gosym.$$" . && mv "$here/build/gosym.$$" "$here/build/gosym") || return 3 2>/dev/null || exit 3
fi
