#!/bin/bash
# Copies the reviewed sources of /repo into /verif/reference (run by hand after a review, never by a check).
set -e
rm -rf /verif/reference
mkdir -p /verif/reference
cd /repo
git ls-files | grep '\.go$' | grep -v '_test\.go$' | grep -v -E '^(signatureSet|eosSignature)/' | while read f; do mkdir -p "/verif/reference/$(dirname "$f")"; cp "$f" "/verif/reference/$f"; done
cp go.mod /verif/reference/
