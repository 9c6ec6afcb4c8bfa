#!/bin/bash
# all checks on the rewritten trees /tmp/refac/t-NAME (default: all there are)
here=$(cd "$(dirname "$0")" && pwd)
[ $# = 0 ] && set -- $(cd /tmp/refac && ls -d t-* | sed 's/^t-//')
for n in "$@"; do echo "== $n"; W=300 "$here/try.sh" /tmp/refac/t-$n $(seq -f C%02g 34); done
