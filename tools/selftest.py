"""Set-up: nothing to build; checks that the analysis machinery imports and
that the abstract package can be constructed."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import importlib
for f in sorted(os.listdir(os.path.join(sys.path[0], 'checks'))):
    if f.endswith('.py'):
        importlib.import_module('checks.' + f[:-3])
print('ok')
