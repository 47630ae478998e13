#!/bin/bash
# dev: build the harness against ${1:-/repo} and run property $2 with a budget of ${3:-20} s
R=$1; P=$2; B=${3:-20}; S=${4:-1}
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build PATH=/opt/veriftools/go1.27.3/bin:$PATH GODEBUG=randautoseed=0
D=$(mktemp -d /tmp/hrun.XXXX)
cp "$(dirname "$0")"/../harness/*.go $D
(sed 's#^module github.com/davidkleiven/gopf#module gopfharness#' $R/go.mod; echo; echo "require github.com/davidkleiven/gopf v0.0.0"; echo "replace github.com/davidkleiven/gopf => $R") > $D/go.mod
cp $R/go.sum $D
(cd $D && go build -o h . && time ./h -prop $P -seed $S -budget $B -out $D/o.json -scratch $D 2>$D/err; tail -c 600 $D/err | grep -v "^20"; cut -c1-1500 $D/o.json)
rm -rf "$D"
