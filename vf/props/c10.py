"""C10 Planes built from points contain them, oriented as documented."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Plane
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/plane.py', 'blmath/numerics/coercion.py', 'blmath/numerics/vector_shortcuts.py'])
RULE = 'Triples of points (grids, any scale, far from the origin), point clouds of every rank, and arguments of every unsuitable form; non-trivial when the normal is not along an axis, or for a rejected argument.'
ASSUMPTIONS = ['the code treats a normal whose components are all below 1e-8 as zero, so products of that size are left out']

form = st.sampled_from(['array', 'list', 'tuple', 'int', 's', 'r', 'ro'])


def give(v, f):
    if f == 'int':
        return [int(round(x)) for x in v]
    if f in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[f](v)
    return A(v, f)


def cross(u, v):
    f = lambda a, b, c, d: math.fsum([a * b, -c * d])
    return np.array([f(u[1], v[2], u[2], v[1]), f(u[2], v[0], u[0], v[2]), f(u[0], v[1], u[1], v[0])])


def check(plane, p1, u, v, size, what, p2, p3=None):
    w = cross(u, v)
    m = np.linalg.norm(w)
    # the accuracy of the direction of a cross product
    tol = 1e-13 + 1e-14 * size * (np.linalg.norm(u) + np.linalg.norm(v)) / m
    close(call(getattr, plane, 'normal'), w / m, tol, what + ': normal', ndarray=True)
    close(call(getattr, plane, 'reference_point'), p1, 0, what + ': reference point', ndarray=True)
    for p in [p1, p2] + ([p3] if p3 is not None else []):
        close(call(plane.signed_distance, np.array(p, dtype=float)), 0.0, (tol + 1e-13) * size, what + ': distance of its points')
    return w / m


@sub('C10', g.rec(p=g.points(3, 3, n=3, consts=D), f=form, vector=st.booleans()), 5000)
def three_points(c):
    if c['f'] == 'int' and np.abs(c['p']).max() > 1e6:
        c['f'] = 'list'      # the products of larger ints overflow
    p1, p2, p3 = [[float(int(round(x))) for x in v] for v in c['p']] if c['f'] == 'int' else c['p']
    size = np.abs(c['p']).max() + 1e-300
    u = np.array(p2) - p1
    v = np.array(p3) if c['vector'] else np.array(p3) - p1
    make = Plane.from_points_and_vector if c['vector'] else Plane.from_points
    w = cross(u, v)
    args = [give(x, c['f']) for x in (p1, p2, p3)]
    if not np.any(w) and all(float(4 * x).is_integer() and abs(x) < 1e6 for q in (p1, p2, p3) for x in q):
        raises(ValueError, make, *args)
        label('collinear')
        return
    if np.abs(w).max() < 2e-8 or np.linalg.norm(w) < 1e-9 * size * (np.linalg.norm(u) + np.linalg.norm(v)):
        label('nearly collinear')
        return
    plane = call(make, *args)
    require(isinstance(plane, Plane), 'not a Plane')
    n = check(plane, p1, u, v, size, make.__name__, p2, None if c['vector'] else p3)
    if c['vector']:
        require(abs(np.asarray(plane.normal).dot(v)) <= 1e-11 * size * np.linalg.norm(v) * (np.linalg.norm(u) + np.linalg.norm(v)) / np.linalg.norm(w) + 1e-13 * np.linalg.norm(v), 'the plane is not parallel to the vector')
    # counterclockwise seen from the side to which the normal points
    back = call(make, args[1], args[0], args[2])
    if not c['vector']:
        close(back.normal, -n, 1e-12 + 1e-13 * size * np.linalg.norm(u) / np.linalg.norm(w) * 4, 'the normal when two points are exchanged')
    label(make.__name__)
    nontrivial(np.abs(n).max() < 1 - 1e-9)


@sub('C10', g.rec(p=st.integers(-4, 4).flatmap(lambda _: g.nums(3, mode='int')), d=g.nums(3, mode='int'), k=st.integers(-3, 3), j=st.integers(-3, 3), vector=st.booleans(), f=form), 1000)
def collinear(c):
    p1 = np.array(c['p'])
    d = np.array(c['d'])
    p2 = p1 + c['k'] * d
    if c['vector']:
        raises(ValueError, Plane.from_points_and_vector, give(p1.tolist(), c['f']), give(p2.tolist(), c['f']), give((c['j'] * d).tolist(), c['f']))
    else:
        raises(ValueError, Plane.from_points, give(p1.tolist(), c['f']), give(p2.tolist(), c['f']), give((p1 + c['j'] * d).tolist(), c['f']))
    raises(ValueError, Plane, p1, np.zeros(3))
    nontrivial(bool(np.any(d)))


BAD = ['none', 'two', 'four', 'column', 'row', 'matrix', 'text', 'nan', 'inf', 'scalar', 'empty', 'complex', 'object', 'stack']


def bad(kind):
    return {'none': None, 'two': [1.0, 2.0], 'four': [1.0, 2.0, 3.0, 4.0], 'column': np.ones((3, 1)), 'row': np.ones((1, 3)), 'matrix': np.eye(3), 'text': ['a', 'b', 'c'],
            'nan': [1.0, float('nan'), 2.0], 'inf': np.array([1.0, float('inf'), 2.0]), 'scalar': 3.0, 'empty': [], 'complex': np.array([1j, 2.0, 3.0]),
            'object': [None, 1.0, 2.0], 'stack': np.ones((2, 3))}[kind]


@sub('C10', g.rec(kind=st.sampled_from(BAD), pos=st.integers(0, 2), vector=st.booleans(), f=st.sampled_from(['array', 'list'])), 400, shards=1)
def rejected(c):
    args = [[1.0, 2.0, 3.0], [0.0, -1.0, 2.0], [5.0, 1.0, 1.0]]
    args = [give(a, c['f']) for a in args]
    args[c['pos']] = bad(c['kind'])
    raises((ValueError, TypeError), Plane.from_points_and_vector if c['vector'] else Plane.from_points, *args)
    nontrivial()


@st.composite
def cloud(draw, lo=3, hi=120):
    kind = draw(st.sampled_from(['any', 'plane', 'plane', 'near', 'line']))
    p = np.array(draw(g.points(lo, hi, consts=D, scales=[1.0, 0.01, 100.0])))
    if kind == 'plane':
        p[:, 2] = 0
    if kind == 'near':
        p[:, 2] *= 1e-3
    if kind == 'line':
        p[:, 1:] = 0
    p = p.dot(g.rot(draw(g.quaternion())).T)
    if draw(st.booleans()):
        p = p + np.array(draw(g.nums(3))) * draw(st.sampled_from([1.0, 100.0]))
    return (p + 0.0).tolist()


@sub('C10', g.rec(p=cloud(300, 5000), lay=g.layout), 24, name='fit_many', purity=False, shards=2, thorough=10)
@sub('C10', g.rec(p=cloud(), lay=g.layout), 3000)
def fit(c):
    p = np.array(c['p'])
    size = np.abs(p).max() + 1e-300
    q = p - p.mean(axis=0)
    s = np.linalg.svd(q, compute_uv=False) / math.sqrt(len(p))
    plane = call(Plane.fit_from_points, A(c['p'], c['lay']))
    require(isinstance(plane, Plane), 'not a Plane')
    n = num_array(call(getattr, plane, 'normal'), 'normal', (3,))
    close(np.linalg.norm(n), 1.0, 1e-12, 'length of the normal')
    close(call(plane.signed_distance, p.mean(axis=0)), 0.0, 1e-12 * size, 'distance of the centroid from the fitted plane')
    close(call(getattr, plane, 'reference_point'), p.mean(axis=0), 1e-12 * size, 'reference point of the fitted plane')
    rms = math.sqrt(float(np.mean(np.asarray(call(plane.signed_distance, p)) ** 2)))
    close(rms, s[2], 1e-7 * s[0] + 1e-12 * size, 'the root mean square distance of the points from the fitted plane, compared with the least possible')
    gap = s[1] ** 2 - s[2] ** 2
    if 1e-12 * s[0] * (s[0] + size) < 0.01 * gap:
        least = np.linalg.svd(q)[2][2]
        close(np.linalg.norm(np.cross(n, least)), 0.0, 1e-12 * s[0] * (s[0] + size) / gap + 1e-12, 'the sine of the angle to the direction of least variance')
        label('direction')
    label('rank %d' % int(np.sum(s > 1e-9 * size)))
    nontrivial(s[1] > 1e-6 * size and s[2] < 0.9 * s[1] and np.abs(n).max() < 1 - 1e-9)
