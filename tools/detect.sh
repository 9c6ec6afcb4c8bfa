#!/bin/bash
# detect.sh [-a] ID... : own property's check (or all with -a) against /tmp/seedgen/w-ID
here=$(cd "$(dirname "$0")" && pwd); all=; [ "$1" = -a ] && all=1 && shift
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('$here/../seeded/$id/meta.json'))['property'])")
 if [ -n "$all" ]; then echo "== $id ($p)"; W=110 "$here/try.sh" /tmp/seedgen/w-$id $(seq -f C%02g 34); else echo "== $id"; V=1 W=130 "$here/try.sh" /tmp/seedgen/w-$id $p; fi
done
