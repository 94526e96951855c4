#!/bin/bash
# sv.sh PROP [n per job] : survey
seq 0 7 | xargs -P8 -I{} sh -c "build/dst survey $1 \$(({}*100000+${3:-1})) ${2:-40} > /tmp/sv.$1.{} 2>/dev/null"; cat /tmp/sv.$1.* | grep '^#'; cat /tmp/sv.$1.* | grep -v '^#' | cut -d' ' -f2- | sed 's/: [0-9]* /: /' | sort | cut -c1-${4:-230} | awk '{k=$1; c[k]++; if(c[k]<=4) print}END{for(k in c) print c[k],k}'; rm -f /tmp/sv.$1.*
