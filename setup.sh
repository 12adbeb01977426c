#!/bin/bash
# Warms the Go build cache for the checker; every check also builds it by itself.
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x $d/go ] && { PATH=$d:$PATH; break; }
done
export PATH GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$here/analyzer" && go build -o "$tmp/owcheck" .
