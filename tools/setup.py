#!/usr/bin/env python3
"""Nothing is kept between runs: this only shows that the toolchain is there
and that the specifications can be parsed."""
import os
import re
import subprocess
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import tlc  # noqa: E402
bad = 0
for f in sorted(os.listdir(V + '/spec')):
    if f.endswith('.tla'):
        p = subprocess.run(['java', '-cp', tlc.JAR, 'tla2sany.SANY', f], cwd=V + '/spec', capture_output=True, text=True)
        ok = p.returncode == 0 and 'Could not' not in p.stdout and '*** Errors' not in p.stdout
        print(f, 'ok' if ok else p.stdout[-1500:])
        bad |= not ok
# the Java implementations of BigNat's operators against their definitions
res = []
for o in (True, False):
    t = tlc.run('BigNatTest', workers=1, override=o).text
    m = re.search(r'<< ?"@".*(?=Model checking completed)', t, re.S)
    res.append(m[0] if m else o)
same = res[0] == res[1]
print('BigNat.java', 'ok' if same else 'differs from BigNat.tla', len(str(res[0])))
sys.exit(1 if bad or not same else 0)
