"""C09 Plane measurements agree with the plane they describe."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Plane
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/plane.py', 'blmath/numerics/vector_shortcuts.py'])
RULE = 'Planes with any normal (any length, near axes too) and reference point, and 0 to 260 points around, far from and exactly on them; non-trivial when the normal is not an axis and points lie on both sides, or when a point lies exactly on an axis-aligned plane.'
ASSUMPTIONS = ['which side a point is on is decided exactly for planes perpendicular to an axis through multiples of 1/4, and elsewhere for points further from the plane than rounding (1e-12 of the coordinates)']

form = st.sampled_from(['c', 'c', 'int', 'f', 's', 'r', 'ro'])


def vec(v, f):
    if f == 'int' and all(float(x).is_integer() for x in v):
        return np.array(v, dtype=np.int64)
    return A(v, 'c' if f == 'int' else f)


def unit(v):
    m = math.sqrt(math.fsum(x * x for x in v))
    return np.array([x / m for x in v])


def dist(p, r0, n):
    return np.array([math.fsum((a - b) * k for a, b, k in zip(x, r0, n)) for x in p])


def common(plane, r0, n, p, size, what):
    """The parameters which describe a plane."""
    close(call(getattr, plane, 'normal'), n, 1e-13, what + ': normal', ndarray=True)
    close(call(getattr, plane, 'reference_point'), r0, 1e-13 * size, what + ': reference_point', ndarray=True)
    d = math.fsum(a * b for a, b in zip(r0, n))
    close(call(getattr, plane, 'equation'), list(n) + [-d], 1e-13 * size + np.array([1e-13, 1e-13, 1e-13, 0]), what + ': equation', ndarray=True)
    close(call(getattr, plane, 'canonical_point'), d * n, 4e-13 * size, what + ': canonical_point', ndarray=True)
    require(isinstance(call(repr, plane), str), what + ': repr')
    if len(p):
        close(call(plane.signed_distance, p), dist(p, r0, n), 1e-12 * size, what + ': signed_distance')


@sub('C09', g.rec(r0=g.points(1, 1, consts=D), n=g.direction(consts=D), p=g.points(300, 12000, consts=D), f=form, lay=g.layout, ab=g.nums(2)), 24, name='many', purity=False, shards=2, thorough=10)
@sub('C09', g.rec(r0=g.points(1, 1, consts=D), n=g.direction(consts=D), p=g.points(0, 260, consts=D), f=form, lay=g.layout, ab=g.nums(2)), 4000)
def measurements(c):
    r0, p = c['r0'][0], np.array(c['p']).reshape(-1, 3)
    n = unit(c['n'])
    size = np.abs(r0).max() + (np.abs(p).max() if len(p) else 0) + 1e-300
    point = vec(r0, c['f']) if len(p) % 4 else tuple(r0) if len(p) % 8 else list(r0)
    plane = call(Plane, point, vec(c['n'], c['f']))
    common(plane, r0, n, p, size, 'plane')
    d = dist(p, r0, n)
    tol = 1e-12 * size
    pa = A(c['p'], c['lay']) if len(p) else np.zeros((0, 3))
    close(call(plane.signed_distance, pa), d, tol, 'signed_distance')
    close(call(plane.distance, pa), np.abs(d), tol, 'distance')
    sign = num_array(call(plane.sign, pa), 'sign', (len(p),))
    clear = np.abs(d) > tol
    exact(sign[clear], np.sign(d[clear]), 'sign')
    require(np.all(np.isin(sign, [-1, 0, 1])), 'sign gives something other than -1, 0, 1')
    for inverted in (False, True):
        kw = {'inverted': True} if inverted else {}
        idx = num_array(call(plane.points_in_front, pa, ret_indices=True, **kw), 'indices in front')
        front = idx.astype(int)
        require(idx.ndim == 1 and np.all(np.diff(front) > 0) and (not len(front) or 0 <= front[0] and front[-1] < len(p)), 'the indices of the points in front should be increasing: %r', idx.tolist())
        want = d < 0 if inverted else d > 0
        got = np.zeros(len(p), dtype=bool)
        got[front] = True
        require(np.array_equal(got[clear], want[clear]), 'points_in_front(inverted=%r) gives the indices %r, distances are %r', inverted, front.tolist(), d.tolist())
        exact(call(plane.points_in_front, pa, **kw), p[front], 'points_in_front(inverted=%r)' % inverted)
    # the other direction
    other = call(plane.flipped)
    require(isinstance(other, Plane), 'flipped should give a Plane')
    common(other, r0, -n, p, size, 'flipped plane')
    # another point of the same plane
    u = unit(np.cross(n, [0, 1, 0] if abs(n[0]) > 0.6 else [1, 0, 0]))
    r1 = np.array(r0) + c['ab'][0] * u + c['ab'][1] * np.cross(n, u)
    again = Plane(r1, np.array(c['n']) * 3)
    close(call(getattr, again, 'canonical_point'), call(getattr, plane, 'canonical_point'), 1e-11 * (size + np.abs(c['ab']).max()), 'canonical_point from another reference point')
    label('points %s' % ('0' if not len(p) else '1' if len(p) == 1 else '2+'))
    nontrivial(np.abs(n).max() < 1 - 1e-9 and np.any(d > tol) and np.any(d < -tol))


@sub('C09', g.rec(r0=g.nums(3), n=g.direction(consts=D), p=g.points(1, 1), lay=g.layout, far=st.sampled_from([1.0, 1.0, 1.0, 1e3, 1e5, 1e8, 1e-6])), 3000)
def projection(c):
    r0, p = c['r0'], [x * c['far'] for x in c['p'][0]]
    n = unit(c['n'])
    size = np.abs(r0).max() + np.abs(p).max() + 1e-300
    plane = Plane(np.array(r0), np.array(c['n']))
    d = dist([p], r0, n)[0]
    got = call(plane.project_point, A(p, c['lay']))
    close(got, np.array(p) - d * n, 1e-14 * size, 'project_point', ndarray=True)
    close(call(plane.project_point, np.array(got)), got, 1e-14 * size, 'project_point of a projected point')
    close(call(plane.signed_distance, A(p, c['lay'])), d, 1e-14 * size, 'signed_distance of one point')
    close(call(plane.distance, A(p, c['lay'])), abs(d), 1e-14 * size, 'distance of one point')
    label('far' if c['far'] > 1 else 'near')
    nontrivial(abs(d) > 1e-9 * size and np.abs(n).max() < 1 - 1e-9)


@sub('C09', g.rec(axis=st.integers(0, 2), s=st.sampled_from([1.0, -1.0, 2.0, -0.5, 4.0]), r0=g.nums(3, mode='half'), p=g.points(0, 60, mode='half', scales=[1.0]), on=st.lists(st.integers(0, 59), max_size=6), off=st.sampled_from([0.0, 0.0, 2.0 ** -10, 2.0 ** -20, 2.0 ** -30, 2.0 ** -40]), dt=st.sampled_from(['float', 'int'])), 3000)
def exactly_on(c):
    """Planes perpendicular to an axis, where zero is exact."""
    n = [0.0, 0.0, 0.0]
    n[c['axis']] = c['s']
    p = np.array(c['p']).reshape(-1, 3)
    r0 = np.array(c['r0'])
    if c['dt'] == 'int':
        p, r0 = np.round(p).astype(np.int64), np.round(r0).astype(np.int64)
    for i in c['on']:
        if len(p):
            p[i % len(p), c['axis']] = r0[c['axis']]
            if c['dt'] == 'float':
                p[i % len(p), c['axis']] += c['off'] * (1 if i % 2 else -1)
    plane = Plane(r0.copy(), np.array(n))
    d = (p[:, c['axis']] - r0[c['axis']]).astype(float) * (1 if c['s'] > 0 else -1)
    exact(call(plane.signed_distance, p.copy()), d, 'signed_distance')
    exact(call(plane.distance, p.copy()), np.abs(d), 'distance')
    exact(call(plane.sign, p.copy()), np.sign(d), 'sign')
    exact(call(plane.points_in_front, p.copy()), p[d >= 0], 'points_in_front')
    exact(call(plane.points_in_front, p.copy(), inverted=True), p[d <= 0], 'points_in_front, inverted')
    exact(call(plane.points_in_front, p.copy(), ret_indices=True), np.flatnonzero(d >= 0), 'points_in_front, indices')
    exact(call(plane.points_in_front, p.copy(), inverted=True, ret_indices=True), np.flatnonzero(d <= 0), 'points_in_front, inverted, indices')
    if len(p):
        q = p[0].astype(float)
        w = q.copy()
        w[c['axis']] = r0[c['axis']]
        exact(call(plane.project_point, q), w, 'project_point')
        if d[0] == 0:
            equal(float(call(plane.sign, p[0].copy())), 0.0, 'sign of a point on the plane')
    label('on the plane' if np.any(d == 0) else 'off the plane')
    nontrivial(np.any(d == 0))
