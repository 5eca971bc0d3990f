#!/bin/bash
# build.sh OUTDIR: rewrites /repo into OUTDIR/sut and builds OUTDIR/simtest.
set -e
out=$1; repo=${2:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
mkdir -p "$out"
cd "$here"
cat > "$out/go.mod" <<EOM
module vsim

go 1.25

require (
	github.com/siebenmann/smtpd v0.0.0
	vsut v0.0.0
)

replace github.com/siebenmann/smtpd => $here/smtpd

replace vsut => $out/sut
EOM
: > "$out/go.sum"
mkdir -p "$out/sut"
[ -f "$out/sut/go.mod" ] || printf 'module vsut\n\ngo 1.21\n' > "$out/sut/go.mod"
go build -modfile="$out/go.mod" -o "$out/rewrite" ./rewrite
"$out/rewrite" -repo "$repo" -out "$out/sut" -sim "$here" -modfile "$out/go.mod"
go test -c -modfile="$out/go.mod" -vet=off -ldflags=-checklinkname=0 -o "$out/simtest" ./harness
