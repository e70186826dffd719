"""C17 Line intersection in the plane and in space is exact."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from blmath.geometry.segment import line_intersect, line_intersect3
from .. import gen as g
from ..core import A, call, close, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/segment.py'])
RULE = 'Pairs of lines given by points on grids or anywhere, crossing at any angle, sharing given points, parallel and identical; the plane intersection is computed with rational numbers; non-trivial when the lines cross and none of them is parallel to an axis, or are parallel.'
ASSUMPTIONS = ['lines at an angle below 1e-11 (1e-7 in space) which are not parallel up to rounding, and lines in space which do not meet, are left out']


def arrange(p, lay):
    return [A(x, lay) for x in p]


ORDERS = [(0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 0, 1), (2, 3, 1, 0), (3, 2, 1, 0)]


def floats(draw, n, s):
    return [x * s for x in draw(g.nums(n))]


@st.composite
def plane_lines(draw):
    kind = draw(st.sampled_from(['any', 'any', 'shared', 'on', 'parallel', 'parallel', 'identical', 'parallel floats', 'narrow']))
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 0.01, 100.0, 1e4, 1e-5, 1e-10]))
    if kind in ('parallel', 'identical'):
        p = np.array(draw(st.lists(st.integers(-50, 50), min_size=2, max_size=2)))
        d = np.array(draw(st.lists(st.integers(-60, 60), min_size=2, max_size=2)))
        r = np.array(draw(st.lists(st.integers(-50, 50), min_size=2, max_size=2)))
        j, k = draw(st.integers(-60, 60)), draw(st.integers(-9, 9))
        a = p + draw(st.integers(-3, 3)) * d if kind == 'identical' else r
        pts = [p, p + (k or 1) * d, a, a + (j or 49) * d]
        return [kind, [[float(x) for x in q] for q in pts]]
    p = np.array(floats(draw, 8, s)).reshape(4, 2)
    if kind == 'shared':
        p[draw(st.integers(2, 3))] = p[draw(st.integers(0, 1))]
    if kind == 'on':
        t = draw(st.sampled_from([0.5, 0.25, 2.0, -1.0]))
        p[2] = p[0] + t * (p[1] - p[0])
    if draw(st.integers(0, 4)) == 0:
        p[draw(st.integers(2, 3))] = p[draw(st.integers(0, 1))] + s * draw(st.sampled_from(g.NEAR)) * np.array(draw(g.nums(2, mode='int')))
    if kind == 'parallel floats':
        p[3] = p[2] + draw(st.sampled_from([1.0, -1.0, 3.0, 0.3, 7.1])) * (p[1] - p[0])
    if kind == 'narrow':
        # at a small angle; the coordinates are exact
        p = np.round(p / s)
        p[3] = p[2] + draw(st.sampled_from([1.0, -1.0, 3.0])) * (p[1] - p[0])
        p[3, draw(st.integers(0, 1))] += draw(st.sampled_from([1.0, -1.0])) * 2.0 ** -draw(st.integers(8, 34))
    return [kind, (p + 0.0).tolist()]


def planar(p):
    """The exact intersection, the sine of the angle, and the shortest length over the size."""
    f = [[Fraction(x) for x in q] for q in p]
    d0 = (f[1][0] - f[0][0], f[1][1] - f[0][1])
    d1 = (f[3][0] - f[2][0], f[3][1] - f[2][1])
    l0, l1 = (float(d0[0]) ** 2 + float(d0[1]) ** 2) ** 0.5, (float(d1[0]) ** 2 + float(d1[1]) ** 2) ** 0.5
    det = d0[0] * d1[1] - d0[1] * d1[0]
    if l0 == 0 or l1 == 0:
        return None
    sin = abs(float(det)) / l0 / l1
    x = None
    if det != 0:
        t = ((f[2][0] - f[0][0]) * d1[1] - (f[2][1] - f[0][1]) * d1[0]) / det
        x = [float(f[0][0] + t * d0[0]), float(f[0][1] + t * d0[1])]
    return x, sin, min(l0, l1)


@sub('C17', g.rec(x=plane_lines(), lay=g.layout4, form=st.sampled_from(['array', 'array', 'list'])), 5000)
def in_the_plane(c):
    kind, p = c['x']
    r = planar(p)
    if r is None:
        label('degenerate')
        return
    x, sin, shortest = r
    size = np.abs(p).max()
    noise = 2.3e-16 * (1 + size / shortest)
    if x is None and kind not in ('parallel', 'identical') and noise > 2e-15:
        return
    parallel = x is None or sin + noise < 4e-15
    if not parallel and (sin < 1e-11 or noise > 1e-3 * sin):
        label('nearly parallel')
        return
    q = arrange(p, c['lay']) if c['form'] == 'array' else [list(y) for y in p]
    for o in ORDERS:
        got = call(line_intersect, *[q[i] for i in o])
        if parallel:
            close(got, [np.nan, np.nan], 0, 'line_intersect of parallel lines (order %r)' % (o,), ndarray=True)
        else:
            close(got, x, (20 * noise) * (size + np.abs(x).max()) / sin, 'line_intersect (order %r)' % (o,), ndarray=True)
    label('parallel' if parallel else kind)
    d = np.array(p)
    nontrivial(parallel or bool(np.all(d[1] != d[0]) and np.all(d[3] != d[2])))


@st.composite
def space_lines(draw):
    kind = draw(st.sampled_from(['any', 'any', 'any', 'float', 'parallel', 'identical', 'parallel floats']))
    nums = lambda n: np.array([float(v) for v in draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))])
    if kind == 'parallel floats':
        p = np.array(draw(g.nums(9))).reshape(3, 3)
        t = draw(st.sampled_from([1.0, -1.0, 3.0, 0.3, 7.1]))
        return [kind, (np.vstack([p, p[2] + t * (p[1] - p[0])]) + 0.0).tolist(), None]
    x, d, e = nums(3), nums(3), nums(3)
    if kind in ('parallel', 'identical'):
        a = x + draw(st.integers(-3, 3)) * d if kind == 'identical' else e
        k, j = draw(st.integers(-9, 9)), draw(st.integers(-60, 60))
        return [kind, [(y + 0.0).tolist() for y in (x, x + (k or 1) * d, a, a + (j or 49) * d)], None]
    ts = [draw(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 7.0, 0.25, -0.5])) for _ in range(4)]
    if draw(st.integers(0, 3)) == 0:
        # given points next to the intersection, and so next to each other
        e = 2.0 ** -draw(st.sampled_from([6, 12, 18, 24]))
        ts[0], ts[2] = ts[0] * e, ts[2] * e
    if ts[0] == ts[1]:
        ts[1] += 1.0
    if ts[2] == ts[3]:
        ts[3] += 1.0
    pts = np.array([x + ts[0] * d, x + ts[1] * d, x + ts[2] * e, x + ts[3] * e])
    if kind == 'float':
        s = draw(st.sampled_from([1.0, 0.01, 100.0, 0.37, 1e-5, 1e-10, 1e6]))
        R = g.rot(draw(g.quaternion())) * s
        off = np.array(draw(g.nums(3))) * s * draw(st.sampled_from([1.0, 1.0, 1e4]))
        pts, x = pts.dot(R.T) + off, R.dot(x) + off
    return [kind, (pts + 0.0).tolist(), (x + 0.0).tolist()]


@sub('C17', g.rec(x=space_lines(), lay=g.layout4), 5000)
def in_space(c):
    kind, p, x = c['x']
    v = np.array(p)
    d, e = v[1] - v[0], v[3] - v[2]
    ld, le = np.linalg.norm(d), np.linalg.norm(e)
    size = np.abs(v).max()
    if min(ld, le) == 0:
        label('degenerate')
        return
    sin = np.linalg.norm(np.cross(d, e)) / ld / le
    noise = 2.3e-16 * (1 + size / min(ld, le))
    if kind == 'parallel floats' and noise > 2e-15:
        return
    parallel = kind in ('parallel', 'identical') or (sin == 0 and kind == 'any') or (kind == 'parallel floats' and sin < 4e-15)
    if not parallel and (sin < 1e-7 or noise > 1e-3 * sin or x is None):
        label('nearly parallel')
        return
    q = arrange(p, c['lay'])
    for o in ORDERS:
        got = call(line_intersect3, *[q[i] for i in o])
        if parallel:
            require(got is None, 'line_intersect3 of parallel or identical lines (order %r): %r', o, got)
        else:
            require(got is not None, 'line_intersect3 (order %r): None, expected %r', o, x)
            close(got, x, 40 * noise * size / sin, 'line_intersect3 (order %r)' % (o,), ndarray=True)
    label('parallel' if parallel else 'shared' if any(np.array_equal(v[i], v[j]) for i in (0, 1) for j in (2, 3)) else kind)
    nontrivial(parallel or bool(np.all(d != 0) and np.all(e != 0)))
