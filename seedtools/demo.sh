#!/bin/bash
# Builds the daemon in the current directory (with a stand-in for the smtpd
# library, which is not available offline) and runs demo.py against it, all in
# a scratch directory. Exit 0: the property holds; 1: it is broken.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/smtpd" "$w/run"
for f in "$repo"/*.go; do
  case $f in *_test.go) ;; *) cp "$f" "$w/src/" ;; esac
done
cp "$here/smtpd_stub.go.txt" "$w/smtpd/smtpd.go"
cp "$here/dnshook.go.txt" "$w/src/zz_dnshook.go"
printf 'module github.com/siebenmann/smtpd\n\ngo 1.21\n' > "$w/smtpd/go.mod"
printf 'module github.com/siebenmann/sinksmtp\n\ngo 1.21\n\nrequire github.com/siebenmann/smtpd v0.0.0\n\nreplace github.com/siebenmann/smtpd => ../smtpd\n' > "$w/src/go.mod"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if [ -f "$here/demo_test.go.txt" ]; then
  cp "$here/demo_test.go.txt" "$w/src/demo_test.go"
  cd "$w/src"
  go test -vet=off -count=1 -timeout 250s -run TestDemo . || exit 1
  exit 0
fi
(cd "$w/src" && go build -o "$w/sinksmtp" .)
cd "$w/run"
PYTHONDONTWRITEBYTECODE=1 timeout 280 python3 "$here/demo.py" "$w/sinksmtp" "$w/run" || exit 1
