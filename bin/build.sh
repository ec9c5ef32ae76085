# Sourced: builds the harness from the working tree of /repo in $B.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOEXPERIMENT=arenas GOWORK=off
B=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 3
cleanup() { case "$B" in */verif.????????) chmod -R u+w "$B" 2>/dev/null; rm -rf "$B";; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM

trouble() { echo "check: $*" >&2; exit 3; }

# build PROPERTY...: $B/harness is the harness (with the race detector for B04)
build() {
	mkdir -p "$B/lib" "$B/h" || trouble mkdir
	cp -r "$V/sim/rt" "$B/rt" && cp -r "$V/sim/instr" "$B/instr" && cp "$V"/sim/harness/*.go "$V/sim/harness/go.mod" "$B/h/" || trouble copy
	(cd "$B/instr" && go build -o "$B/instr.bin" .) || trouble "building the instrumentation"
	local programs=()
	if [ "$1" = T01 ]; then
		programs=(cmd/precision)
		cp "$V"/sim/program/*.go "$B/h/" && cp -r "$V/sim/program/profile" "$B/profile" || trouble copy
	fi
	"$B/instr.bin" "$REPO" "$B/lib" "$B/rt" "$B/sites" "${programs[@]}" || trouble "instrumenting the library"
	cp "$REPO/go.sum" "$B/h/go.sum" || trouble go.sum
	printf '\nreplace verifrt => %s\nreplace github.com/mariotoffia/goannoy => %s\n' "$B/rt" "$B/lib" >>"$B/h/go.mod"
	[ "$1" = T01 ] && printf '\nrequire github.com/pkg/profile v1.0.0\nreplace github.com/pkg/profile => %s\n' "$B/profile" >>"$B/h/go.mod"
	local flags=()
	[ "$1" = B04 ] && flags=(-race -gcflags=all=-d=checkptr=0)
	(cd "$B/h" && go build "${flags[@]}" -o "$B/harness" .) || trouble "building the harness"
}
