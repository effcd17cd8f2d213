#!/bin/bash
# developer tool: cfgs.sh FILE PATTERN config... : one.py under several configurations in parallel
f=$1; p=$2; shift 2; cd /verif; i=0
for c in "$@"; do i=$((i+1)); (timeout 900 python3-vt vc/one.py contracts/$f -I/verif/models/net $c $p > /tmp/cfg.$i.log 2>&1; echo "## $c" > /tmp/cfg.$i.out; grep -v "^   loop\|^   covers {'end': True}\|^  File \|^    " /tmp/cfg.$i.log | cut -c1-260 >> /tmp/cfg.$i.out) & done; wait
i=0; for c in "$@"; do i=$((i+1)); cat /tmp/cfg.$i.out; done
