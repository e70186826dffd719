"""C01 Vector shortcuts decompose vectors correctly, alone and stacked."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.numerics import vx
from .. import gen as g
from ..core import A, call, close, exact, fail, label, nontrivial, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/numerics/vector_shortcuts.py'])
RULE = 'Vectors and stacks (0 to 260 rows) from grids, scaled 1e-3..1e6, in several memory layouts; non-trivial when at least one vector is not along a coordinate axis and onto is neither parallel nor perpendicular to it.'


def mag(v):
    return math.sqrt(math.fsum(c * c for c in v))


def unit(v):
    m = mag(v)
    return [c / m for c in v]


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


@sub('C01', g.rec(v=g.nums(3, consts=D), s=g.scale(), onto=g.direction(consts=D), lay=g.layout, k=st.sampled_from([2.0, 0.5, 1e-3, 1e3, 7.0])), 3000)
def single(c):
    v, onto = [x * c['s'] for x in c['v']], c['onto']
    m, u = mag(v), unit(onto)
    tol = 1e-12 * (m + 1e-300)
    va, oa = A(v, c['lay']), A(onto, c['lay'])
    close(call(vx.magnitude, va), m, tol, 'magnitude')
    if m > 0:
        close(call(vx.normalize, va), unit(v), 1e-13, 'normalize')
    s = dot(v, u)
    close(call(vx.sproj, va, onto=oa), s, tol, 'sproj')
    close(call(vx.sproj, va, onto=oa * c['k']), s, tol, 'sproj on a longer onto')
    close(call(vx.sproj, va, onto=-oa), -s, tol, 'sproj on the opposite onto')
    p = [s * x for x in u]
    close(call(vx.proj, va, onto=oa), p, tol, 'proj')
    close(call(vx.proj, va, onto=-oa * c['k']), p, tol, 'proj on the opposite onto')
    r = [a - b for a, b in zip(v, p)]
    close(call(vx.reject, va, from_v=oa), r, 2 * tol, 'reject')
    close(call(vx.proj, va, oa) + call(vx.reject, va, oa), v, 4 * tol, 'proj + reject')
    require(abs(dot(np.asarray(call(vx.reject, va, from_v=oa)).tolist(), u)) <= 4 * tol, 'the rejection is not perpendicular')
    nontrivial(m > 0 and abs(s) > 1e-6 * m and mag(r) > 1e-6 * m)


@sub('C01', g.rec(v=g.direction(consts=D), rows=g.points(1, 6), at=st.integers(0, 5), k=st.sampled_from([1.0, 2.0, -1.0, 0.3]), lay=g.layout), 1500)
def onto_itself(c):
    """A vector and what it is projected onto may be one object, or equal ones; the results are new arrays."""
    v, m = c['v'], mag(c['v'])
    for what, a, b in (('itself', A(v, c['lay']), None), ('an equal vector', A(v, c['lay']), A(v)), ('a multiple', A(v, c['lay']), A([x * c['k'] for x in v]))):
        b = a if b is None else b
        close(call(vx.sproj, a, onto=b), m if what != 'a multiple' or c['k'] > 0 else -m, 1e-12 * m, 'sproj onto ' + what)
        p, r = call(vx.proj, a, onto=b), call(vx.reject, a, from_v=b)
        close(p, v, 1e-12 * m, 'proj onto ' + what)
        close(r, [0.0] * 3, 2e-12 * m, 'reject from ' + what)
        for name, x in (('proj', p), ('reject', r), ('normalize', call(vx.normalize, a))):
            require(not np.shares_memory(x, a) and not np.shares_memory(x, b), '%s onto %s gives a view of its argument', name, what)
    rows = c['rows']
    i = c['at'] % len(rows)
    if mag(rows[i]) > 0:
        # onto one of the rows of the stack itself
        s = A(rows, c['lay'])
        u = unit(rows[i])
        want = [[dot(x, u) * y for y in u] for x in rows]
        tol = 1e-12 * np.array([[mag(x)] for x in rows])
        p = vx.proj(s, onto=s[i])
        close(p, want, tol, 'proj onto one of the rows')
        require(not np.shares_memory(p, s), 'proj gives a view of its argument')
        close(vx.reject(s, from_v=s[i]), np.array(rows) - want, 2 * tol, 'reject from one of the rows')
        exact(s, rows, 'the stack')
    nontrivial()


@sub('C01', g.rec(v=g.points(300, 12000, consts=D), onto=g.direction(consts=D), lay=g.layout), 24, name='many', purity=False, shards=2, thorough=10)
@sub('C01', g.rec(v=g.points(0, 260, consts=D), onto=g.direction(consts=D), lay=g.layout, far=st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(-140, 140), min_size=1, max_size=5), st.lists(st.integers(-12, 12), min_size=1, max_size=5))), 3000)
def stacked(c):
    v, onto = c['v'], c['onto']
    n = len(v)
    if c.get('far'):
        # vectors of very different lengths in one stack
        v = [[x * 10.0 ** c['far'][i % len(c['far'])] for x in r] for i, r in enumerate(v)]
        label('lengths which differ widely')
    label('rows %s' % ('0' if n == 0 else '1' if n == 1 else '2-9' if n < 10 else '10+'))
    va = A(v, c['lay']) if n else np.zeros((0, 3))
    oa = A(onto)
    u = unit(onto)
    ms = [mag(x) for x in v]
    tol = 1e-12 * np.array(ms)
    close(call(vx.magnitude, va), np.array(ms), tol, 'magnitude of a stack', ndarray=True)
    ss = [dot(x, u) for x in v]
    close(call(vx.sproj, va, onto=oa), np.array(ss), tol, 'sproj of a stack')
    p = np.array([[s * y for y in u] for s in ss]).reshape(n, 3)
    close(call(vx.proj, va, onto=oa), p, tol[:, None], 'proj of a stack')
    close(call(vx.reject, va, from_v=oa), np.array(v).reshape(n, 3) - p, 2 * tol[:, None], 'reject of a stack')
    nz = [x for x, m in zip(v, ms) if m > 0]
    if nz or n == 0:
        close(call(vx.normalize, A(nz, c['lay']) if nz else np.zeros((0, 3))), np.array([unit(x) for x in nz]).reshape(len(nz), 3), 1e-13, 'normalize of a stack')
    nontrivial(n > 1 and any(abs(s) > 1e-6 * m and m > 0 and abs(s) < 0.999999 * m for s, m in zip(ss, ms)))


@sub('C01', g.rec(n=st.integers(1, 40), d=st.sampled_from([1, 2, 4, 5, 7]), buf=st.integers(0, 10), data=st.data() if False else g.nums(280), lay=g.layout), 600)
def other_dimensions(c):
    """normalize and magnitude work in any dimension."""
    n, d = c['n'], c['d']
    v = [c['data'][(i * d + c['buf']):(i * d + c['buf']) + d] for i in range(n)]
    v = [x for x in v if len(x) == d and mag(x) > 0]
    if not v:
        return
    exact_m = [mag(x) for x in v]
    close(call(vx.magnitude, A(v, c['lay'])), exact_m, 1e-12 * np.array(exact_m), 'magnitude of a stack')
    close(call(vx.normalize, A(v, c['lay'])), [unit(x) for x in v], 1e-13, 'normalize of a stack')
    close(call(vx.magnitude, A(v[0], c['lay'])), exact_m[0], 1e-12 * exact_m[0], 'magnitude')
    close(call(vx.normalize, A(v[0], c['lay'])), unit(v[0]), 1e-13, 'normalize')
    nontrivial(d > 1 and len(v) > 1)


@sub('C01', g.rec(v=g.points(1, 60, consts=D), axis=st.integers(0, 2), lay=g.layout, ints=st.booleans(), bad=st.sampled_from([3, 4, -1, 7, None, 'x']), pw=st.one_of(st.just([]), st.lists(st.integers(-20, 15), min_size=1, max_size=7))), 1500)
def axes(c):
    v, axis = c['v'], c['axis']
    if c['pw'] and not c['ints']:
        # coordinates of very different sizes in one vector
        v = [[x * 10.0 ** c['pw'][(3 * i + j) % len(c['pw'])] for j, x in enumerate(r)] for i, r in enumerate(v)]
    dt = np.float64
    if c['ints']:
        v = [[float(round(x)) for x in r] for r in v]
        dt = np.int64
    z = [[0.0 if i == axis else x for i, x in enumerate(r)] for r in v]
    q = [[x for i, x in enumerate(r) if i != axis] for r in v]
    va = A(v, c['lay'], dt)
    exact(call(vx.reject_axis, va, axis), z, 'reject_axis of a stack')
    exact(call(vx.reject_axis, va, axis=axis, squash=True), q, 'reject_axis of a stack, squashed')
    one = A(v[0], c['lay'], dt)
    r = call(vx.reject_axis, one, axis)
    exact(r, z[0], 'reject_axis')
    exact(one, v[0], 'the vector after reject_axis')
    require(r is not one and not np.shares_memory(r, one), 'reject_axis should return a copy')
    exact(call(vx.reject_axis, one, axis=axis, squash=True), q[0], 'reject_axis, squashed')
    raises(ValueError, vx.reject_axis, va, c['bad'], squash=True)
    nontrivial(any(x[axis] != 0 for x in v))


LIMIT = {'int8': 127, 'int16': 32767, 'int32': 2 ** 31 - 1, 'int64': 2 ** 40, 'uint8': 255, 'uint16': 65535}


@sub('C01', g.rec(dt=st.sampled_from(sorted(LIMIT)), v=st.lists(st.tuples(*[st.one_of(st.integers(-128, 128), st.integers(-2 ** 40, 2 ** 40))] * 3).map(list), min_size=1, max_size=8), onto=g.direction(), axis=st.integers(0, 2)), 1200)
def whole_numbers(c):
    """Integer arrays of any type, with numbers up to the largest of the type."""
    lim = LIMIT[c['dt']]
    v = [[(abs(x) if c['dt'][0] == 'u' else int(math.copysign(1, x)) * abs(x)) for x in r] for r in c['v']]
    v = [[x if abs(x) <= lim else int(math.copysign(1 + abs(x) % lim, x)) for x in r] for r in v]
    a, onto, u = np.array(v, dtype=c['dt']), np.array(c['onto']), unit(c['onto'])
    ms = np.array([mag(r) for r in v])
    tol = 1e-12 * ms
    close(call(vx.magnitude, a), ms, tol, 'magnitude of a stack')
    close(call(vx.magnitude, a[0]), ms[0], tol[0], 'magnitude')
    ss = np.array([dot(r, u) for r in v])
    close(call(vx.sproj, a, onto=onto), ss, tol, 'sproj of a stack')
    close(call(vx.proj, a, onto=onto), ss[:, None] * np.array(u), tol[:, None], 'proj of a stack')
    close(call(vx.proj, a[0], onto=onto), ss[0] * np.array(u), tol[0], 'proj')
    close(call(vx.reject, a, from_v=onto), np.array(v, dtype=float) - ss[:, None] * np.array(u), 2 * tol[:, None], 'reject of a stack')
    keep = [i for i in range(3) if i != c['axis']]
    r = np.array(v)
    exact(call(vx.reject_axis, a, axis=c['axis'], squash=True), r[:, keep], 'reject_axis, squashed')
    r[:, c['axis']] = 0
    exact(call(vx.reject_axis, a, axis=c['axis']), r, 'reject_axis')
    nz = [x for x in v if any(x)]
    if nz:
        close(call(vx.normalize, np.array(nz, dtype=c['dt'])), [unit(x) for x in nz], 1e-13, 'normalize of a stack')
        w = np.array(nz[0], dtype=c['dt'])
        close(call(vx.normalize, w), unit(nz[0]), 1e-13, 'normalize')
        s = dot(c['onto'], unit(nz[0]))
        t2 = 1e-12 * mag(c['onto'])
        close(call(vx.sproj, onto, onto=w), s, t2, 'sproj onto whole numbers')
        close(call(vx.proj, onto, onto=w), s * np.array(unit(nz[0])), t2, 'proj onto whole numbers')
    label(c['dt'])
    nontrivial(ms.max() > 100)


@sub('C01', g.rec(shape=st.sampled_from([[], [2, 3, 3], [1, 1, 3], [1, 2, 2, 3], [4, 1, 3]]), data=g.nums(18), axis=st.integers(0, 2), squash=st.booleans()), 200, shards=1)
def wrong_dimensions(c):
    n = int(np.prod(c['shape'])) if c['shape'] else 1
    a = np.array((c['data'] + [1.0] * 18)[:n]).reshape(c['shape']) + 20.0
    onto = np.array([1.0, 2.0, 3.0])
    raises(ValueError, vx.normalize, a)
    raises(ValueError, vx.magnitude, a)
    raises(ValueError, vx.proj, a, onto=onto)
    raises(ValueError, vx.reject, a, from_v=onto)
    raises(ValueError, vx.reject_axis, a, axis=c['axis'], squash=c['squash'])
    nontrivial()


@sub('C01', g.rec(names=st.lists(st.sampled_from(['x', 'y', 'z', 'neg_x', 'neg_y', 'neg_z']), min_size=1, max_size=8), k=st.integers(0, 2), val=st.sampled_from([5.0, 0.0, -1.0])), 200, shards=1)
def basis(c):
    want = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1], 'neg_x': [-1, 0, 0], 'neg_y': [0, -1, 0], 'neg_z': [0, 0, -1]}
    for n in c['names']:
        b = call(getattr, vx.basis, n)
        exact(b, want[n], 'basis.' + n)
        if not isinstance(b, np.ndarray) or b.dtype != np.float64:
            fail('basis.%s is not a float array', n)
        b[c['k']] = c['val']
    nontrivial(len(c['names']) > 1)
