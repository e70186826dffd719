"""Makes /repo's blmath and Hypothesis importable in one interpreter, whatever the sandbox copy looks like.

* blmath is imported from REPO (default /repo), never from an installed copy.
* Hypothesis comes from the pre-installed tool environment, appended at the end of sys.path so
  that numpy, scipy etc. stay those of the interpreter which runs the repository's own tests.
* `lace` (a mesh library which is not installed) is replaced by a stand-in with the one function
  blmath.geometry.shapes needs from it: splitting quads into triangles.
* chumpy 0.70 does not import on Python 3.12 as it is; load_chumpy() supplies the names which it
  looks up in inspect and numpy for the duration of the import.
"""
import os
import sys
import types

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.dont_write_bytecode = True


def setup():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import blmath
    where = os.path.realpath(os.path.dirname(blmath.__file__))
    if where != os.path.join(REPO, 'blmath'):
        raise RuntimeError('blmath was imported from %s, not from %s' % (where, REPO))
    _stub_lace()


def _stub_lace():
    import numpy as np
    if 'lace' in sys.modules:
        return
    lace, topology = types.ModuleType('lace'), types.ModuleType('lace.topology')

    def quads_to_tris(quads):
        tris = np.empty((2 * len(quads), 3), dtype=np.int64)
        tris[0::2] = quads[:, [0, 1, 2]]
        tris[1::2] = quads[:, [0, 2, 3]]
        return tris
    topology.quads_to_tris = quads_to_tris
    lace.topology = topology
    sys.modules['lace'] = lace
    sys.modules['lace.topology'] = topology


_chumpy = {}


def load_chumpy():
    """Import chumpy and the two modules of blmath which use it."""
    if _chumpy:
        return _chumpy
    import builtins
    import collections
    import importlib
    import inspect
    import numpy as np
    if not hasattr(inspect, 'getargspec'):
        spec = collections.namedtuple('ArgSpec', 'args varargs keywords defaults')
        inspect.getargspec = lambda f: spec(*inspect.getfullargspec(f)[:4])
    added = []
    for name in ('bool', 'int', 'float', 'complex', 'object', 'str'):
        if name not in np.__dict__:
            setattr(np, name, getattr(builtins, name))
            added.append(name)
    if 'unicode' not in np.__dict__:
        np.unicode = str
        added.append('unicode')
    try:
        _chumpy['ch'] = importlib.import_module('chumpy')
        _chumpy['rodrigues'] = importlib.import_module('blmath.geometry.transform.rodrigues')
        _chumpy['normals'] = importlib.import_module('blmath.optimization.objectives.normals')
    finally:
        for name in added:
            delattr(np, name)
    return _chumpy
