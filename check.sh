#!/bin/bash
# usage: check.sh <property>[,<property>...] [quick|thorough]
# Builds the checker from /verif/analyzer and decides the properties on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go/bin /usr/local/go/bin; do
  [ -x $d/go ] && { PATH=$d:$PATH; break; }
done
export PATH GOPROXY=off GOTOOLCHAIN=local GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$here/analyzer" && GOFLAGS=-mod=mod go build -o "$tmp/owcheck" .) >"$tmp/log" 2>&1; then
  cat "$tmp/log"
  echo "the checker does not build"
  exit 2
fi
run() { "$@" -repo "${OWC_REPO:-/repo}" -verif "$here" -prop "$prop" -tier "$tier" >"$tmp/out" 2>&1; }
limit=640; [ "$tier" = thorough ] && limit=7200
run timeout $limit "$tmp/owcheck"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the comparison of value graphs ran away: decide by the local rules alone
  tail -c 2000 "$tmp/out" | grep -v VIOLATION >&2
  run timeout 200 "$tmp/owcheck" -nograph
  rc=$?
fi
cat "$tmp/out"
exit $rc
