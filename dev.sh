#!/bin/bash
# dev.sh CHECKS ID...: run properties in one process, print statistics
cd /verif/harness || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
n=$1; shift
go test $RACE -c -o /tmp/h.test . || exit 1
for p in "$@"; do id=${p%.*}; part=0; [ "$id" != "$p" ] && part=${p#*.}; mkdir -p /tmp/o/$p; VP_PROP=$id VP_PART=$part VP_SEED=${SEED:-1} VP_CHECKS=$n VP_OUT=/tmp/o/$p timeout 600 /tmp/h.test -test.run TestProp -test.v 2>&1 | tail -${LINES_:-14} | cut -c1-1800; python3 -c "
import json;s=json.load(open('/tmp/o/$p/stats.json'));s['samples']=len(s['samples']);s.pop('rule');print('$p',s)"; done
