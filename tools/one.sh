#!/bin/bash
# tools/one.sh '<scenario ops separated by ;>' [variant]  - run one scenario, print its trace
cd /verif; b=$(python3 lib/hbuild.py ${2:-vh} | tail -1)
{ echo "S 1"; echo "$1" | tr ';' '\n' | sed 's/^ *//'; echo E; } > /tmp/one.scn; rm -f /tmp/one.err
ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1 $b /tmp/one.scn /tmp/one.trc /tmp/one.err; cat /tmp/one.trc; grep -v '^$' /tmp/one.err | head -${3:-40}
