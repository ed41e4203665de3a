#!/bin/bash
# backtrace of the exception of a replay file: bt.sh FILE
python3 - "$1" > /tmp/bt.cmd <<'P'
import json,sys
r=json.load(open(sys.argv[1]))
open('/tmp/bt.exe','w').write('/verif/build/%s.%s'%(r['property'],r['config']))
print("run --tier quick --replay-law %s --replay-tape '%s'"%(r['law'],r['tape']))
P
gdb -batch -ex "set follow-fork-mode child" -ex "catch throw" -ex "$(cat /tmp/bt.cmd)" -ex bt $(cat /tmp/bt.exe) 2>&1 | grep -E "^#" | cut -c1-170
