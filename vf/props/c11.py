"""C11 Plane intersections with lines and segments are exact and agree."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Plane
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/plane.py'])
RULE = 'Planes and single or stacked (0 to 200) lines and segments, among them parallel ones, ones in the plane, ones which end on it, and degenerate ones; non-trivial when some row intersects and some does not.'
ASSUMPTIONS = ['whether a direction is parallel, and whether a segment reaches the plane, is decided where rounding cannot change it: exactly for planes perpendicular to an axis or a diagonal and coordinates which are multiples of 1/4, with a margin of 1e-12 of the coordinates elsewhere']


EX = {'any': False, 'axis': True, 'diagonal': 'diagonal'}


def unit(v):
    m = math.sqrt(math.fsum(x * x for x in v))
    return np.array([x / m for x in v])


def side(p, r0, n):
    return math.fsum((a - b) * k for a, b, k in zip(p, r0, n))


def line(pt, ray, r0, n, exact_zero):
    """('parallel',), ('skip',) or ('point', point, tolerance, parameter)."""
    denom = math.fsum(a * b for a, b in zip(ray, n))
    m = math.sqrt(math.fsum(a * a for a in ray))
    axis = exact_zero is True
    if exact_zero == 'diagonal':
        # the products are exact, and cancel, for powers of two only (a fused multiplication rounds just one of them)
        z = np.abs([x for x in ray if x])
        exact_zero = len(z) == 0 or bool(np.all(z == z[0])) and math.frexp(z[0])[0] == 0.5
    if m == 0 or exact_zero and (denom == 0 or axis is False and abs(denom) < 1e-9 * m):
        return ('parallel',)
    if abs(denom) < 1e-9 * m and not axis:
        return ('skip',)
    size = max(np.abs(pt).max(), np.abs(r0).max()) + 1e-300
    t = -side(pt, r0, n) / denom
    return ('point', np.array(pt) + t * np.array(ray), 2e-13 * size * (1 + m / abs(denom)) + 1e-14 * abs(t) * m * (m / abs(denom)), t)


def segment(a, b, r0, n, exact_zero, exact_ends):
    ray = np.array(b) - a
    r = line(a, ray, r0, n, exact_zero)
    if r[0] == 'point':
        da, db = side(a, r0, n), side(b, r0, n)
        size = max(np.abs(a).max(), np.abs(b).max(), np.abs(r0).max()) + 1e-300
        if not exact_ends and min(abs(da), abs(db)) < 1e-12 * size + 1e-12 * abs(da - db):
            return ('skip',)
        if da * db > 0:
            return ('none',)
    return r


@st.composite
def setting(draw, lo, hi):
    """A plane, and pairs of points."""
    kind = draw(st.sampled_from(['axis', 'diagonal', 'any', 'any']))
    n = draw(g.size(lo, hi, D))
    if kind == 'axis':
        normal = [0.0, 0.0, 0.0]
        normal[draw(st.integers(0, 2))] = draw(st.sampled_from([1.0, -1.0, 2.0, -0.5]))
    elif kind == 'diagonal':
        normal = [float(x) for x in draw(st.sampled_from([[1, 1, 0], [0, 1, -1], [1, 1, 1], [-1, 1, -1], [1, 0, 1]]))]
    else:
        normal = draw(g.direction(consts=D))
    mode = None if kind == 'any' else 'half'
    r0 = draw(g.nums(3, mode=mode))
    a = np.array(draw(g.nums(3 * n, mode=mode, consts=D if kind == 'any' else None))).reshape(n, 3)
    b = np.array(draw(g.nums(3 * n, mode=mode))).reshape(n, 3)
    u = unit(normal)
    for i in range(n if n < 12 else 12):
        k = draw(st.integers(0, 11))
        if k == 0 and kind == 'axis':
            j = int(np.argmax(np.abs(normal)))
            a[i, j] = r0[j]                      # starts on the plane
        elif k == 1 and kind == 'axis':
            j = int(np.argmax(np.abs(normal)))
            b[i, j] = r0[j]                      # ends on the plane
        elif k == 2 and kind != 'any':
            w = np.array(normal)
            z = np.cross(w, [1.0, 0.0, 0.0] if w[0] == 0 else [0.0, 1.0, 0.0])
            b[i] = a[i] + z                      # parallel
        elif k == 3 and kind == 'axis':
            j = int(np.argmax(np.abs(normal)))
            a[i, j] = b[i, j] = r0[j]            # in the plane
        elif k == 4:
            b[i] = a[i]                          # degenerate
        elif k == 5:
            j = draw(st.integers(0, 2))
            b[i, j] = a[i, j]                    # constant coordinate
        elif k == 7:
            b[i] = a[i] + (b[i] - a[i]) * 2.0 ** -draw(st.sampled_from([5, 10, 20, 30]))      # short
        elif k == 8 and kind == 'axis':
            # just off the plane
            j = int(np.argmax(np.abs(normal)))
            a[i, j] = r0[j] + 2.0 ** -draw(st.sampled_from([5, 10, 20, 30])) * draw(st.sampled_from([1.0, -1.0]))
        elif k == 6 and kind == 'any':
            b[i] = a[i] - (side(a[i], r0, u) * draw(st.sampled_from([0.5, 0.999, 1.001, 1.5, 2.0]))) * u    # along the normal, almost to it or beyond
    s = draw(st.sampled_from([1.0, 1.0, 1.0, 100.0, 0.01, 1e-5, 1e-9, 1e6])) if kind == 'any' else draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -30]))
    return {'kind': kind, 'normal': normal, 'r0': [x * s for x in r0], 'a': (a * s + 0.0).tolist(), 'b': (b * s + 0.0).tolist()}


@sub('C11', g.rec(x=setting(1, 4), shape=st.sampled_from(['3', '1x3', '3x1', 'list']), lay=g.layout), 4000)
def one_at_a_time(c):
    x = c['x']
    n = unit(x['normal'])
    plane = Plane(np.array(x['r0']), np.array(x['normal']))

    def give(v):
        return {'3': A(v, c['lay']), '1x3': np.array([v]), '3x1': np.array(v).reshape(3, 1), 'list': list(v)}[c['shape']]
    kinds = set()
    for a, b in zip(x['a'], x['b']):
        ray = (np.array(b) - a).tolist()
        for what, want, got in [('line_xsection', line(a, ray, x['r0'], n, EX[x['kind']]), lambda: call(plane.line_xsection, give(a), give(ray))),
                                ('line_xsection with the ray reversed', line(a, ray, x['r0'], n, EX[x['kind']]), lambda: call(plane.line_xsection, give(a), give([-2.0 * k for k in ray]))),
                                ('line_segment_xsection', segment(a, b, x['r0'], n, EX[x['kind']], x['kind'] == 'axis'), lambda: call(plane.line_segment_xsection, give(a), give(b))),
                                ('line_segment_xsection backwards', segment(b, a, x['r0'], n, EX[x['kind']], x['kind'] == 'axis'), lambda: call(plane.line_segment_xsection, give(b), give(a)))]:
            if want[0] == 'skip':
                continue
            r = got()
            kinds.add(want[0])
            label('%s: %s' % (what.split()[0], want[0]))
            if want[0] == 'point':
                require(r is not None, '%s: None, expected %r', what, want[1].tolist())
                close(r, want[1], want[2], what, ndarray=True)
            else:
                require(r is None, '%s: %r, expected None', what, r)
    nontrivial(len(kinds) > 1)


@sub('C11', g.rec(x=setting(300, 5000), lay=g.layout, lay2=g.layout, k=st.sampled_from([1.0, 2.0, -0.5])), 16, name='many', purity=False, shards=2, thorough=10)
@sub('C11', g.rec(x=setting(0, 200), lay=g.layout, lay2=g.layout, k=st.sampled_from([1.0, 2.0, -0.5]), same=st.sampled_from([False, False, False, True])), 4000)
def stacked(c):
    x = c['x']
    m = len(x['a'])
    n = unit(x['normal'])
    plane = Plane(np.array(x['r0']), np.array(x['normal']))
    a, b = np.array(x['a']).reshape(-1, 3), np.array(x['b']).reshape(-1, 3)
    if c.get('same') and m:
        # lines which are parallel to one another
        rays = np.tile((b[0] - a[0]) * c['k'], (m, 1))
        b = a + rays
        label('the same direction')
    else:
        rays = (b - a) * c['k']
    r = call(plane.line_xsections, A(a, c['lay']), A(rays, c['lay2']))
    kinds = set()
    for what, r, want in [('line_xsections', r, [line(p, q, x['r0'], n, EX[x['kind']]) for p, q in zip(a, rays)]),
                          ('line_segment_xsections', call(plane.line_segment_xsections, A(a, c['lay']), A(b, c['lay2'])), [segment(p, q, x['r0'], n, EX[x['kind']], x['kind'] == 'axis') for p, q in zip(a, b)])]:
        require(isinstance(r, tuple) and len(r) == 2, '%s should return a pair', what)
        pts = num_array(r[0], what, (m, 3), ndarray=True)
        require(isinstance(r[1], np.ndarray) and r[1].dtype == bool and r[1].shape == (m,), '%s: the mask is %r', what, r[1])
        for i, w in enumerate(want):
            if w[0] == 'skip':
                continue
            kinds.add(w[0])
            equal(bool(r[1][i]), w[0] == 'point', '%s: validity of row %d' % (what, i))
            if w[0] == 'point':
                close(pts[i], w[1], w[2], '%s: row %d' % (what, i))
            elif what == 'line_segment_xsections':
                require(np.all(np.isnan(pts[i])), '%s: row %d should be nan, got %r', what, i, pts[i].tolist())
    label('rows %s' % ('0' if m == 0 else '1' if m == 1 else '2-9' if m < 10 else '10+'))
    nontrivial(len(kinds) > 1)
