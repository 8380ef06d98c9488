#!/usr/bin/env python3
"""Set-up: the tools the analyses need are present, and the domain behaves."""
import os
import shutil
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
for t in ('clang++', 'clang', 'opt', 'g++'):
    if not shutil.which(t):
        import build
        if not any(os.path.exists(p) for p in ('/usr/lib/llvm-18/bin/' + t, '/usr/bin/%s-18' % t)):
            sys.exit('missing tool: ' + t)
import properties
import ga
from alg import Ctx
c = Ctx()
x, y = c.sym('x'), c.sym('y')
assert ((x + y) * (x - y) - x * x + y * y).is_zero()
assert not (x * y - y - x).is_zero()
print('ready:', len(properties.PROPS), 'properties')
