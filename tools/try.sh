#!/bin/bash
# try.sh TREE PROP... : quick checks against a scratch tree; prints those that are not quiet
tree=$1; shift
w=$(mktemp -d /tmp/tryXXXXXX); trap 'rm -rf "$w"' EXIT
chmod 755 $w; cp -r /verif/harness $w/h; mkdir $w/root
sed -i "s#=> /repo#=> $tree#" $w/h/go.mod
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
cd $w/h; go build -o $w/nn . || { echo NOBUILD; exit 2; }
for p in "$@"; do
 b=$w/nn
 if [ $p = C23 ]; then go build -race -o $w/nnr . ; b=$w/nnr; fi
 o=$($b -prop $p -tier ${TIER:-quick} -seed ${VERIF_SEED:-1} -root $w/root 2>&1); rc=$?
 m=$(echo "$o" | grep -m1 -E '^case|INCONCL|error' | cut -c1-${W:-160})
 case $rc in 0) [ -n "$V" ] && echo "$p ok";; *) echo "$p rc=$rc $m";; esac
done
