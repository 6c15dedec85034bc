CLI='''#!/bin/bash
# exit 0: the property held; nonzero: it was broken
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
go build -o "$tmp/gosync" ./cmd/gosync || exit 1
cd "$tmp" || exit 1
'''
