#!/usr/bin/env python3
"""setup: confirm the tools the checks need are here and that the current tree compiles to IR."""
import os, sys, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import drv
for t in ('clang', 'bison', 'flex'):
    if not shutil.which(t) and not shutil.which(t + '-18'):
        sys.exit('missing tool ' + t)
m, d, _ = drv.load_module()
print('IR: %d functions, %d globals' % (len(m.funcs), len(m.globals)))
