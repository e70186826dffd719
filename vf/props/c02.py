"""C02 Angles between vectors and the approximate predicates are exact."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.numerics import vx
from .. import gen as g
from ..core import A, call, close, fail, label, nontrivial, require
from ..registry import sub

D = g.Dictionary(['blmath/numerics/vector_shortcuts.py'])
RULE = 'Pairs of vectors in general and special position (parallel, opposite, perpendicular, nearly so), scaled 1e-4..1e4; non-trivial when the angle is not a multiple of 90 degrees, or the predicate is decided within a factor 100 of its tolerance.'


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mag(v):
    return math.sqrt(math.fsum(c * c for c in v))


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


@st.composite
def pairs(draw):
    v1 = draw(g.direction(consts=D))
    k = draw(st.integers(0, 6))
    s = draw(st.sampled_from([1.0, 0.1, 10.0, 3.7, 1e4, 1e-4]))
    if k == 0:
        v2 = [s * x for x in v1]
    elif k == 1:
        v2 = [-s * x for x in v1]
    elif k == 2:
        w = draw(g.direction())
        v2 = cross(v1, w)
        if mag(v2) == 0:
            v2 = w
    elif k == 3:
        e = draw(st.sampled_from([1e-3, 1e-5, 1e-7, 0.1, -1.0]))
        w = draw(g.nums(3))
        v2 = [s * (x + e * y) for x, y in zip(v1, w)]
        if mag(v2) == 0:
            v2 = v1
    else:
        v2 = draw(g.direction(consts=D))
    return [v1, v2]


@sub('C02', g.rec(p=pairs(), look=g.direction(), lay=g.layout, k=st.sampled_from([2.0, 0.125, 3.0, 1e3])), 6000)
def angles(c):
    v1, v2, look = c['p'][0], c['p'][1], c['look']
    a, b, l = A(v1, c['lay']), A(v2, c['lay']), A(look, c['lay'])
    x = cross(v1, v2)
    want = math.degrees(math.atan2(mag(x), dot(v1, v2)))
    # acos loses half of the digits at 0 and 180
    tol = 1e-9 + math.degrees(min(4e-8, 4e-15 / max(math.sin(math.radians(want)), 1e-9)))
    ang = call(vx.angle, a, b, l)
    close(ang, want, tol, 'angle')
    require(0 <= ang <= 180, 'angle %r is not between 0 and 180', ang)
    close(call(vx.angle, b, a, l), want, tol, 'angle, exchanged')
    close(call(vx.angle, a * c['k'], b, l), want, tol, 'angle of a longer vector')
    close(call(vx.angle, -a, b, look=l), 180 - want, tol, 'angle of the opposite vector')
    label('angle %s' % ('0' if want < 1e-6 else '180' if want > 180 - 1e-6 else '90' if abs(want - 90) < 1e-6 else 'generic'))
    d = dot(x, look)
    err = 1e-14 * (mag(v1) * mag(v2) * mag(look)) * 4
    sa = call(vx.signed_angle, a, b, l)
    close(abs(sa), want, tol, 'size of the signed angle')
    integral = all(float(t).is_integer() and abs(t) < 1e4 for t in v1 + v2 + look)
    if abs(d) > err or integral:
        sign = -1 if d < 0 else 1
        close(sa, sign * want, tol, 'signed_angle')
        close(call(vx.signed_angle, a, b, -l), (-1 if d > 0 else 1) * want, tol, 'signed_angle with the opposite look')
        close(call(vx.signed_angle, b, a, l), (-1 if d > 0 else 1) * want, tol, 'signed_angle, exchanged')
        label('sign %s' % ('0' if d == 0 else '+' if d > 0 else '-'))
    nontrivial(min(abs(want - t) for t in (0, 90, 180)) > 1e-3)


@sub('C02', g.rec(v=st.lists(st.one_of(st.integers(-100000, 100000), st.integers(-3, 3)), min_size=6, max_size=6), look=st.lists(st.integers(-3000, 3000), min_size=3, max_size=3), k=st.sampled_from([None, None, None, 1, -1, 2, 7])), 1500)
def whole_numbers(c):
    """Large whole numbers: the sign and the predicate are exact."""
    v1, v2, look = c['v'][:3], c['v'][3:], c['look']
    if c['k']:
        v2 = [c['k'] * x for x in v1]
    if not any(v1) or not any(v2):
        return
    x = cross(v1, v2)
    d = sum(a * b for a, b in zip(x, look))
    want = math.degrees(math.atan2(mag(x), dot(v1, v2)))
    tol = 1e-9 + math.degrees(min(4e-8, 4e-15 / max(math.sin(math.radians(want)), 1e-9)))
    a, b, l = np.array(v1), np.array(v2), np.array(look)
    close(call(vx.angle, a, b, l), want, tol, 'angle of whole numbers')
    close(call(vx.signed_angle, a, b, l), (-1 if d < 0 else 1) * want, tol, 'signed_angle of whole numbers')
    close(call(vx.signed_angle, b, a, l), (-1 if d > 0 else 1) * want, tol, 'signed_angle of whole numbers, exchanged')
    require(bool(call(vx.almost_collinear, a, b)) == (not any(x)), 'almost_collinear(%r, %r)', v1, v2)
    require(bool(call(vx.almost_zero, a)) is False, 'almost_zero(%r)', v1)
    label('collinear' if not any(x) else 'sign %d' % np.sign(d))
    nontrivial(max(map(abs, v1 + v2)) > 1000)


atols = st.sampled_from([None, None, 1e-8, 1e-3, 1e-12, 0.5, 1.0, 0.0, 1e-14, 1e-30, 1e-200, 1e6])


@sub('C02', g.rec(atol=st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 4.0, 12.0, 2.0 ** -40, 1e-8, 0.1]), v=g.nums(3, mode='int'), w=g.nums(3, mode='int'), ax=st.integers(0, 2), i=st.sampled_from([0, 1, 2, -1, 3]), at=st.booleans()), 1500)
def boundary(c):
    """Lengths which are computed without rounding, at the tolerance itself: it still counts."""
    v, w, atol = c['v'], c['w'], c['atol']
    if c['at']:
        # the cross product has length atol exactly, or is scaled to other exact lengths
        a, b = [0.0] * 3, [0.0] * 3
        a[c['ax']], b[(c['ax'] + 1) % 3] = 1.0, c['i'] * atol
        b[c['ax']] = v[0]
        m = abs(c['i'] * atol)
        z = [0.0] * 3
        z[c['ax']] = c['i'] * atol
        require(bool(call(vx.almost_zero, np.array(z), atol=atol)) == (m <= atol), 'almost_zero(%r, atol=%r)', z, atol)
        z = [atol * (-1) ** i for i in range(3)]
        require(bool(call(vx.almost_zero, np.array(z), atol=atol)), 'almost_zero(%r, atol=%r)', z, atol)
    else:
        # parallel: exactly zero, which no tolerance excludes
        a, b = v, [c['i'] * x for x in v]
        m = 0.0
    require(bool(call(vx.almost_collinear, np.array(a), np.array(b), atol=atol)) == (m <= atol), 'almost_collinear(%r, %r, atol=%r), the cross product has length %r', a, b, atol, m)
    label('at the tolerance' if m == atol else 'inside' if m < atol else 'outside')
    nontrivial(m == atol)


@sub('C02', g.rec(v=g.nums(3), e=st.sampled_from([0.0, 1.0, 1e-1, 0.1, 0.01, 10.0]), atol=atols, which=st.integers(0, 3)), 3000)
def zero(c):
    atol = 1e-8 if c['atol'] is None else c['atol']
    v = [x * c['e'] * atol for x in c['v']]
    if c['which'] < 3:
        v = [x if i == c['which'] else 0.0 for i, x in enumerate(v)]
    kw = {} if c['atol'] is None else {'atol': atol}
    m = max(abs(x) for x in v)
    if abs(m - atol) <= 1e-6 * atol:
        label('on the boundary')
        return
    want = m <= atol
    got = call(vx.almost_zero, np.array(v), **kw)
    require(bool(got) == want, 'almost_zero(%r, atol=%r) is %r', v, atol, got)
    label('zero' if want else 'not zero')
    nontrivial(0.01 * atol < m < 100 * atol)


@sub('C02', g.rec(p=pairs(), t=st.sampled_from([0.0, 0.5, 0.9, 1.1, 2.0, 50.0, 1e4]), atol=atols, plain=st.booleans()), 3000)
def collinear(c):
    atol = 1e-8 if c['atol'] is None else c['atol']
    kw = {} if c['atol'] is None else {'atol': atol}
    v1, v2 = c['p']
    if not c['plain']:
        # place the cross product at t times the tolerance
        w = cross(v1, cross(v1, v2)) if mag(cross(v1, v2)) > 1e-6 * mag(v1) * mag(v2) else cross(v1, [1.0, 2.0, 4.0])
        if mag(w) == 0:
            return
        f = c['t'] * atol / (mag(v1) * mag(w))
        v2 = [f * x for x in w]
    m = mag(cross(v1, v2))
    noise = 1e-14 * mag(v1) * mag(v2)
    if abs(m - atol) <= 1e-6 * atol + noise:
        label('on the boundary')
        return
    want = m <= atol
    got = call(vx.almost_collinear, np.array(v1), np.array(v2), **kw)
    require(bool(got) == want, 'almost_collinear(%r, %r, atol=%r) is %r, and the cross product has length %r', v1, v2, atol, got, m)
    label('collinear' if want else 'not collinear')
    nontrivial(0.01 * atol < m < 100 * atol)
