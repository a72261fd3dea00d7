#!/bin/sh
cd /verif/sa; for f in "$@"; do timeout 60 python3 trace.py "$f" 2>&1 | cut -c1-${W:-1500} | tail -${N:-80}; done
