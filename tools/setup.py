"""Confirms that the package parses and that every check module imports."""
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
from sv import driver
p = driver.program()
n = 0
for f in sorted(os.listdir(os.path.join(V, 'checks'))):
    if f.endswith('.py') and f != '__init__.py':
        importlib.import_module('checks.' + f[:-3])
        n += 1
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('%d modules, %d functions of the package parsed; %d check modules imported' % (len(p.mods), len(p.funcs), n))
