#!/bin/sh
# mut.sh PROP PATTERN-FILE|sed-expr FILE : run a check against a mutated scratch copy
# usage: mut.sh C13 's/a/b/' src/file.c [check args]
P=$1; E=$2; F=$3; shift 3
D=/tmp/mut.$$; mkdir -p $D/repo; cp -a /repo/src /repo/meson.build $D/repo/
sed -i "$E" $D/repo/$F
if cmp -s $D/repo/$F /repo/$F; then echo "NO CHANGE"; rm -rf $D; exit 2; fi
(cd ${VERIF_DIR:-/verif} && VERIF_REPO=$D/repo VERIF_BUILD=$D/build python3 check.py $P "$@" 2>&1 | grep -v "^KNOWN" > $D.out; echo "violations: $(grep -a VIOLATION $D.out | grep -a "bound=" | awk "{print \$2}" | tr "\n" " ") keys: $(grep -a "^VIOLATION\|key" $D.out | head -3 | cut -c1-160)"; grep -a "error:\|ERROR" $D.out | head -3; [ -n "$TAIL" ] && tail -$TAIL $D.out; rm -f $D.out)
rm -rf $D
