"""C33 Correspondences between vertex sets carry over to new vertices.

The package which computes the correspondence (bodylabs) is not available. A stand-in with its two classes, which relates
each destination vertex to all source vertices by an affine combination, takes its place; what is decided is what
apply_correspondence makes of it.
"""
import sys
import types

import numpy as np
from hypothesis import strategies as st

from .. import env
from .. import gen as g
from ..core import A, call, close, fail, label, nontrivial, num_array, require, short
from ..registry import sub

RULE = 'Source sets of 4 to 12 vertices in general position, destinations of 1 to 12, new vertices from an affine map of the source or unrelated, each as numpy or chumpy arrays; non-trivial when source, destination and new vertices all differ.'
ASSUMPTIONS = ['a stand-in for the classes TransformedCoeffs and TransformedLms of the absent package bodylabs, an affine correspondence', 'chumpy is imported with names of older numpy and inspect supplied']


def raw(x):
    return np.array(x.r if hasattr(x, 'r') else x, dtype=float)


def prepare(scratch):
    ch = env.load_chumpy()['ch']
    if 'bodylabs' in sys.modules:
        return

    class TransformedCoeffs(object):
        def __init__(self, src_v, dst_v):
            s, d = raw(src_v), raw(dst_v)
            pad = lambda a: np.hstack([a, np.ones((len(a), 1))])
            self.weights = pad(d).dot(np.linalg.pinv(pad(s)))

    class TransformedLms(ch.Ch):
        dterms = 'src_v'
        terms = 'transformed_coeffs'

        def compute_r(self):
            return self.transformed_coeffs.weights.dot(self.src_v.r)

        def compute_dr_wrt(self, wrt):
            if wrt is self.src_v:
                return np.kron(self.transformed_coeffs.weights, np.eye(3))

    names = ['bodylabs', 'bodylabs.mesh', 'bodylabs.mesh.landmarking', 'bodylabs.mesh.landmarking.transformed_lm']
    mods = [types.ModuleType(n) for n in names]
    for a, b in zip(mods, mods[1:]):
        setattr(a, b.__name__.rsplit('.', 1)[1], b)
    mods[-1].TransformedCoeffs, mods[-1].TransformedLms = TransformedCoeffs, TransformedLms
    for n, m in zip(names, mods):
        sys.modules[n] = m


@st.composite
def case(draw, sizes=None):
    n = draw(st.integers(4, 12)) if not sizes else draw(st.sampled_from(sizes))
    return {'src': draw(g.points(n=n, dups=False, scales=[1.0, 0.1, 100.0])), 'dst': draw(g.points(1, 12) if not sizes else g.points(257, 2000)), 'how': draw(st.sampled_from(['itself', 'copy', 'affine', 'affine', 'rigid', 'any'])),
            'm': draw(g.nums(12)), 'q': draw(g.quaternion()), 'any': draw(g.points(n=n)), 'ch': draw(st.lists(st.booleans(), min_size=3, max_size=3)) if draw(st.booleans()) else [False] * 3,
            'lay': draw(g.layout), 'kw': draw(st.booleans())}


@sub('C33', case([257, 300, 1001, 2049]), 24, name='carries_over_many', purity=False, prepare=prepare, shards=2, thorough=10)
@sub('C33', case(), 4000, purity=False, prepare=prepare)
def carries_over(c):
    from blmath.geometry.transform.correspondence import apply_correspondence
    ch = env.load_chumpy()['ch']
    src, dst = np.array(c['src']), np.array(c['dst'])
    spread = src - src.mean(axis=0)
    s = np.linalg.svd(spread, compute_uv=False)
    general = s[2] > 1e-3 * s[0] > 0
    size = np.abs(src).max() + np.abs(dst).max()
    how = c['how']
    lin = np.array(c['m'][:9]).reshape(3, 3) if how == 'affine' else g.rot(c['q']) if how == 'rigid' else np.eye(3)
    t = np.array(c['m'][9:]) if how in ('affine', 'rigid') else np.zeros(3)
    new = src.dot(lin.T) + t if how != 'any' else np.array(c['any'])
    wrap = lambda x, f: ch.array(x.copy()) if f else A(x, c['lay'])
    args = [wrap(src, c['ch'][0]), wrap(dst, c['ch'][1]), wrap(new, c['ch'][2])]
    if how == 'itself':
        args[2] = args[0]
    if c['kw']:
        r = call(apply_correspondence, correspondence_src=args[0], correspondence_dst=args[1], vertices=args[2])
    else:
        r = call(apply_correspondence, *args)
    wants = any(isinstance(x, ch.Ch) for x in args)
    require(isinstance(r, ch.Ch) == wants, 'apply_correspondence returned %s where %s was due', type(r).__name__, 'chumpy' if wants else 'numpy')
    if not wants:
        require(isinstance(r, np.ndarray), 'apply_correspondence returned %s', type(r).__name__)
    got = num_array(raw(r), 'apply_correspondence', dst.shape)
    for x, w in zip(args, (src, dst, new)):
        require(np.array_equal(raw(x), w), 'an argument has changed')
    if how == 'any':
        pad = lambda a: np.hstack([a, np.ones((len(a), 1))])
        want = pad(dst).dot(np.linalg.pinv(pad(src))).dot(new)
        if general:
            close(got, want, 1e-6 * (np.abs(want).max() + np.abs(new).max()) * (1 + size / s[2]), 'the new vertices')
    elif general:
        want = dst.dot(lin.T) + t
        close(got, want, 1e-9 * (np.abs(want).max() + np.abs(new).max() + size) * (1 + size / s[2]) ** 2, 'the destination under the map of the source')
    if wants and isinstance(args[2], ch.Ch) and how != 'itself' and general:
        # the result follows the vertices
        args[2].x = src.copy()
        close(raw(r), dst, 1e-9 * size * (1 + size / s[2]) ** 2, 'the chumpy result after its vertices were moved back to the source')
        label('followed')
    label(how)
    label('chumpy' if wants else 'numpy')
    nontrivial(general and how not in ('itself', 'copy'))
