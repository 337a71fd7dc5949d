#!/bin/bash
# run1 with short output
"$(dirname "$0")"/run1.sh "$@" 2>&1 | grep -v '^ *unm' | awk '/^   BAD/{n++; a=substr($0,1,120); getline; b=substr($0,1,170); getline; if (n<=(ENVIRON["MAXB"]?ENVIRON["MAXB"]:6)) {print a; print b; print substr($0,1,130)} next} /bad 0 /&&!/CAPPED/{ok++; next} {n=0; print substr($0,1,160)} END{print "ok entries:", ok}' | head -${MAXL:-24}
