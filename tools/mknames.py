"""Freezes the public names of the external modules the package uses (run with the repository's interpreter):
/opt/venv/bin/python tools/mknames.py  ->  sv/extnames.json"""
import importlib
import json
import os
import sys
import types
out = {}
for m in ('numpy', 'numpy.linalg', 'numpy.random', 'scipy', 'scipy.linalg', 'scipy.optimize', 'copy', 'sys', 'types', 'warnings', 'math',
          'os', 'time', 'random', 'datetime', 'itertools', 'functools'):
    try:
        mod = importlib.import_module(m)
    except ImportError:
        continue
    out[m] = sorted(dir(mod))
    if m == 'numpy':
        out['numpy:all'] = sorted(mod.__all__)
    else:
        out[m + ':all'] = sorted(getattr(mod, '__all__', [x for x in dir(mod) if not x.startswith('_')]))
import numpy
obj = set()
for o in (numpy.ndarray, numpy.float64, numpy.poly1d, str, list, tuple, dict, set, int, float, Exception, sys.stdout.__class__,
          types.FunctionType, slice, numpy.dtype, numpy.finfo):
    obj |= set(dir(o))
out['*object'] = sorted(obj | {'message', 'eps', 'resolution'})
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sv', 'extnames.json')
json.dump(out, open(p, 'w'), indent=0)
