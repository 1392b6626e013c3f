#!/bin/bash
# usage: mut.sh contractmod pattern file sedexpr  : run obligations on a mutated copy
rm -rf /tmp/mut/r; mkdir -p /tmp/mut/r; cp -r /repo/philtorch /tmp/mut/r/
sed -i "$4" /tmp/mut/r/philtorch/$3
diff -r -q /repo/philtorch /tmp/mut/r/philtorch | grep -v pycache | grep differ || echo "NO CHANGE"
cd /verif/engine; VERIF_REPO=/tmp/mut/r timeout 600 python3-vt runob.py $1 "$2" -x | cut -c1-400
