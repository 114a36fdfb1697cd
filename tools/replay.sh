#!/bin/bash
# run the replay harness of a property against a tree: replay.sh C01 [repo]
repo=${2:-/repo}; d=$(mktemp -d)
{ echo '{"Replace":{'; sep=; for f in /verif/replay/*_test.go; do echo "$sep\"$repo/$(basename $f)\":\"$f\""; sep=,; done; echo '}}'; } > $d/o.json
cd $repo && GOFLAGS=-mod=mod go test $([ $1 = C18 ] && echo -race) -vet=off -overlay $d/o.json -run "^TestVerif$1\$" -count=1 . ; rc=$?; rm -rf $d; exit $rc
