#!/bin/bash
# build.sh PROPERTY WORKDIR REPO : compile the harness against REPO into WORKDIR/vmon
set -u
prop=$1; work=$2; repo=$3
root="$(cd "$(dirname "$0")" && pwd)"
for d in /usr/local/go/bin /opt/veriftools/go/bin; do [ -d $d ] && PATH=$PATH:$d; done
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
mkdir -p "$work/src" && cp "$root"/harness/*.go "$root"/harness/go.mod "$root"/harness/go.sum "$work/src/" || exit 2
sed -i "s#=> /repo\$#=> $repo#" "$work/src/go.mod"
cd "$work/src" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GONOSUMDB=* GOTOOLCHAIN=local
race=
grep -qx "$prop" "$root/tools/race.txt" 2>/dev/null && race=-race
go build $race -trimpath -o "$work/vmon" . 
