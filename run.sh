#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [--replay FILE]
# Builds the monitors against /repo's current working tree and runs one property.
set -u
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GODEBUG=
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
replay=()
[ "${1:-}" = "--replay" ] && replay=(-replay "$(realpath "$2")") && shift 2
seed=${VERIF_SEED:-1}
bin=$(mktemp -d /tmp/nnmon-build.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
chmod 755 "$bin" # the monitors run as an unprivileged user
race=()
[ "$id" = C23 ] && race=(-race)
cd "$here/harness" || exit 2
if ! go build "${race[@]}" -o "$bin/nnmon" . ; then
    echo "error: the monitors do not build against /repo" ; exit 2
fi
cd "$here"
"$bin/nnmon" -prop "$id" -tier "$tier" -seed "$seed" -root "$here" "${replay[@]}" "$@"
