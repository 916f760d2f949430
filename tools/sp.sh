#!/bin/bash
# sp.sh [PATTERN ...]: regenerate the specification file and verify the lemmas whose name matches (development)
python3 - <<'P'
import sys
sys.path.insert(0,'/verif/cppvc'); sys.path.insert(0,'/verif/contracts'); sys.dont_write_bytecode=True; sys.setrecursionlimit(8000)
import verify
from engine import Program
from lib import ExecX
from execu import Ctx
asts,bad=verify.dump_asts('/repo/src','/tmp/dev','/verif/build/astdump')
p=Program(asts); x=ExecX(Ctx(p,{}))
open('/tmp/dev/sp.rs','w').write('\n'.join(verify.file_text(p,x,[],True)[0]))
P
cd /tmp/dev
[ $# = 0 ] && exec verus sp.rs --verify-module spec --multiple-errors 8 --rlimit 60 --num-threads 6
for f in "$@"; do
  out=$(verus sp.rs --verify-only-module ${M:-spec} --verify-function "$f" --multiple-errors 8 --rlimit 60 --num-threads 6 2>&1)
  if echo "$out" | grep -q "verification results:: [1-9][0-9]* verified, 0 errors"; then echo "ok $f"; else echo "== $f"; echo "$out" | grep -v '^note' | head -${N:-30}; echo "$out" | grep -q 'verification results' || exit 1; fi
done
