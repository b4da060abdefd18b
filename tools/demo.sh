#!/bin/bash
# Runs demo_test.go against the repository in the current directory.
# Exit code 0: it passes, another one: it fails.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/cxo-demo-XXXXXX) || exit 2
trap '/bin/rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} TMPDIR=$T
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
tar xzf "$D/shims.tgz" -C "$T" || exit 2
mkdir "$T/demo" && cp "$D/demo_test.go" "$T/demo/" || exit 2
printf 'module github.com/skycoin/cxo\n\ngo 1.23\n' > "$T/cxo.mod"
echo "{\"Replace\":{\"$R/go.mod\":\"$T/cxo.mod\"}}" > "$T/overlay.json"
cat > "$T/demo/go.mod" <<EOF
module demo

go 1.23

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v0.0.0
	github.com/peterh/liner v0.0.0
	github.com/skycoin/cxo v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
)

replace (
	github.com/DiSiqueira/GoTree => ../shims/gotree
	github.com/boltdb/bolt => ../shims/bolt
	github.com/peterh/liner => ../shims/liner
	github.com/skycoin/cxo => $R
	github.com/skycoin/net => ../shims/net
	github.com/skycoin/skycoin => ../shims/skycoin
)
EOF
cd "$T/demo" || exit 2
if [ -n "$DEMO_RACE" ] || [ -e "$D/race" ]; then
	export CGO_ENABLED=1
	exec_flags="-race -gcflags=all=-d=checkptr=0"
else
	export CGO_ENABLED=0
fi
go test -count=1 -vet=off -timeout 250s $exec_flags -overlay "$T/overlay.json" ./...
