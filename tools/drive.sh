#!/bin/bash
# development aid: tools/drive.sh DRIVER [seed] [tier] -> trace on stdout
set -e
. /opt/vp/env.sh 2>/dev/null || true
D=$(mktemp -d /tmp/drive.XXXX)
cp -r "$(dirname "$0")/../harness" $D/h
sed 's/^module .*/module verif.local\/harness/' ${VERIF_REPO:-/repo}/go.mod > $D/h/go.mod
printf '\nrequire github.com/si-co/vpir-code v0.0.0\nreplace github.com/si-co/vpir-code => %s\n' ${VERIF_REPO:-/repo} >> $D/h/go.mod
cp ${VERIF_REPO:-/repo}/go.sum $D/h/
(cd $D/h && GOFLAGS=-mod=mod GOPROXY=off go build -o $D/vh .)
mkdir $D/work; for p in $PROGS; do (cd ${VERIF_REPO:-/repo} && go build -o $D/work/${p%%=*} ./${p#*=}); done; (cd $D/work; $D/vh $1 -seed ${2:-1} -tier ${3:-quick} -out $D/t -work $D/work 1>&2)
cat $D/t; rm -rf $D
