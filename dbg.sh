#!/bin/bash
# build harness bc + native in /tmp/dbg: dbg.sh src [defs...]
python3 - "$@" <<'P'
import sys; sys.path.insert(0,'/verif'); import check, os
os.makedirs('/tmp/dbg',exist_ok=True); check.build_engine()
src=sys.argv[1]; n=os.path.splitext(src)[0]; d=sys.argv[2:]
print(check.compile_bc(src,f'/tmp/dbg/{n}.bc',d) or 'bc ok')
r=check.sh(check.native_cmd(src,f'/tmp/dbg/{n}.nat',d)); print(r.stdout or 'native ok')
P
