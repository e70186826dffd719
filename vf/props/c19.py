"""C19 Extreme, farthest and inflection points are the true ones."""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry.apex import apex, farthest, inflection_points
from blmath.geometry import Polyline
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/apex.py'])
RULE = 'Point sets with ties and repeated points and any axis; curves made from planned runs of rising and falling slopes, with any spacing, in any coordinate system, scale and place; non-trivial when several different points compete, or for inflections when the curve has at least 8 samples.'
ASSUMPTIONS = ['a change from convex to concave is found within two samples of it, and each run of slopes has at least six samples', 'slopes differ by more than rounding']


@st.composite
def contest(draw, d=3):
    """Points of which several compete for being the farthest: almost the same distance apart."""
    p = np.array(draw(g.points(2, 30, consts=D)))
    k = draw(st.integers(0, 2))
    e = draw(st.sampled_from(g.NEAR))
    i, j = draw(st.integers(0, len(p) - 1)), draw(st.integers(0, len(p) - 1))
    if k == 0:
        p[i] = p[j] * (1 + e)
    elif k == 1:
        p[i] = np.roll(p[j], 1) * (1 + e)
    else:
        p[i] = -p[j] + e
    return (p + 0.0).tolist()


@sub('C19', g.rec(p=g.points(300, 12000, consts=D), a=g.direction(), al=st.booleans(), lay=g.layout, poly=st.booleans()), 16, name='apex_many', purity=False, shards=2, thorough=10)
@sub('C19', g.rec(p=st.one_of(g.points(1, 120, consts=D), contest()), a=g.direction(), al=st.booleans(), lay=g.layout, poly=st.booleans()), 5000)
def apex_(x):
    p, a = np.array(x['p']), np.array(x['a'])
    if x['poly']:
        if len(p) < 2:
            return
        r = call(call(Polyline, A(p, x['lay'])).apex, A(a))
        label('of a polyline')
    else:
        r = call(apex, A(p, x['lay']), x['a'] if x['al'] else A(a))
    r = num_array(r, 'apex', (3,))
    m = np.flatnonzero(np.all(p == r, axis=1))
    require(len(m) > 0, 'the apex %r is no point of the input', r.tolist())
    # exact sums: the difference along the axis
    d = (p - r).dot(a)
    tol = 1e-12 * np.abs(p).max() * np.abs(a).max() * 3
    require(d.max() <= tol, 'the point %r is farther along the axis than the apex, by %r', p[np.argmax(d)].tolist(), d.max())
    nontrivial(len(np.unique(p, axis=0)) >= 3)


@sub('C19', g.rec(p=g.points(300, 12000, consts=D), f=st.one_of(g.points(1, 1), st.just([[0.0, 0.0, 0.0]])), near=st.sampled_from([None, 0, 1, 2, -1]), lay=g.layout), 16, name='farthest_many', purity=False, shards=2, thorough=10)
@sub('C19', g.rec(p=st.one_of(g.points(1, 120, consts=D), contest()), f=st.one_of(g.points(1, 1), st.just([[0.0, 0.0, 0.0]])), near=st.sampled_from([None, 0, 1, 2, -1]), lay=g.layout), 5000)
def farthest_(x):
    p, f = np.array(x['p']), np.array(x['f'][0])
    if x['near'] is not None:
        f = p[x['near'] % len(p)].copy()
    r = call(farthest, f, A(p, x['lay']))
    require(isinstance(r, tuple) and len(r) == 2, 'not a pair')
    i = r[1]
    require(int(i) == i and 0 <= i < len(p), 'index %r', i)
    exact(num_array(r[0], 'farthest', (3,)), p[int(i)], 'the farthest point and the one with its index')
    d = np.sqrt(((p - f) ** 2).sum(axis=1))
    require(d[int(i)] >= d.max() * (1 - 1e-12), 'the farthest point %r is at %r, another at %r', p[int(i)].tolist(), d[int(i)], d.max())
    label('from one of the points' if x['near'] is not None else 'from anywhere')
    nontrivial(len(np.unique(p, axis=0)) >= 3)


@sub('C19', g.rec(p=g.points(2, 40, mode='wide', scales=[1.0]), f=g.points(1, 1, mode='wide', scales=[1.0]), k=st.sampled_from([30, 1000, 60000, 250000]), t=st.sampled_from(['i4', 'i8'])), 1200)
def farthest_integers(x):
    """Coordinates whose squares, but not themselves, are beyond the integer type."""
    k = {'i4': 1, 'i8': 10 ** 6}[x['t']] * x['k']
    p, f = (np.array(x[a]).astype(np.int64) * k // (4 if x['t'] == 'i4' else 1) for a in ('p', 'f'))
    r = call(farthest, f[0].astype(x['t']), p.astype(x['t']))
    i = int(r[1])
    exact(np.asarray(r[0]).astype(np.int64), p[i], 'the farthest point and the one with its index')
    d = [sum((int(a) - int(b)) ** 2 for a, b in zip(q, f[0])) for q in p]
    require(d[i] >= max(d) * (1 - 1e-12), 'the farthest point %r is at the squared distance %r, another at %r', p[i].tolist(), d[i], max(d))
    label('%s times %d' % (x['t'], k))
    nontrivial(len(np.unique(p, axis=0)) >= 3)


@st.composite
def curve(draw):
    """Slopes over any spacing, in runs which rise or fall."""
    runs = draw(st.lists(st.integers(6, 14), min_size=1, max_size=5))
    first = draw(st.booleans())
    if len(runs) == 1:
        runs = [draw(st.one_of(st.integers(2, 8), st.integers(2, 60)))]
    n = sum(runs)
    spacing = draw(st.sampled_from(['even', 'some', 'any', 'nearly']))
    step = np.array(list(draw(st.binary(min_size=n, max_size=n)))) if spacing != 'even' else np.zeros(n, dtype=int)
    step = 1 + step % (9 if spacing == 'any' else 2)
    if spacing == 'nearly':
        # almost even: the steps differ by 1e-3 or less
        step = step + draw(st.sampled_from([999, 2000, 9999]))
    inc = 1 + np.array(list(draw(st.binary(min_size=n - 1, max_size=n - 1))), dtype=int) % draw(st.sampled_from([1, 3, 8]))
    sign = np.concatenate([np.full(k, (1 if first else -1) * (-1) ** i) for i, k in enumerate(runs)])
    slope = (draw(st.integers(-20, 20)) if spacing != 'nearly' else draw(st.sampled_from([0, 3, 700, -2000, 9000]))) + np.concatenate([[0], np.cumsum(inc * sign[1:n])])
    X = np.concatenate([[0], np.cumsum(step)]) + draw(st.sampled_from([0, 0, -30, 100]))
    Y = np.concatenate([[0], np.cumsum(slope * step)]) + draw(st.sampled_from([0, 0, 50, -7]))
    # a change of the second difference from one inner sample to the next
    ch = [int(k) for k in np.flatnonzero(np.diff(sign[1:n]))]
    return {'x': X.tolist(), 'y': Y.tolist(), 'changes': [k + 1 for k in ch], 'rev': draw(st.booleans()),
            'z': draw(st.sampled_from([0, 1, 5])), 'q': draw(g.quaternion()), 'axes': draw(st.sampled_from([[1, 1, 0], [1, 1, 0], [2, 0.5, 0], [0.01, 30, 0], [1, 1, 0.4]])),
            's': draw(st.sampled_from([1.0, 1.0, 0.01, 100.0, 1e3, 0.37, 2.54, 1e-3])), 'ys': draw(st.sampled_from([1.0, 1.0, 0.1, 0.01, 5.0])), 't': draw(g.nums(3)), 'lay': draw(g.layout)}


def indices(p, r, what):
    if isinstance(r, list) and r == []:
        return []
    r = num_array(r, what)
    if r.size == 0:
        return []
    require(r.ndim == 2 and r.shape[1] == 3, '%s: shape %s', what, r.shape)
    out = []
    for q in r:
        m = [int(k) for k in np.flatnonzero(np.all(p == q, axis=1)) if not out or k > out[-1]]
        require(m, '%s: %r is no later point of the curve', what, q.tolist())
        out.append(m[0])
    return out


@st.composite
def faint(draw):
    """Whole numbers on an even grid, so that the differences are exact; in some runs the slope changes much less than in others."""
    runs = draw(st.lists(st.integers(6, 30), min_size=2, max_size=5))
    by = [10 ** draw(st.sampled_from([0, 0, 2, 5, 8, 10])) for _ in runs]
    n = sum(runs)
    inc = 1 + np.array(list(draw(st.binary(min_size=n, max_size=n))), dtype=int) % draw(st.sampled_from([1, 3]))
    sign = np.concatenate([np.full(k, (-1) ** i) for i, k in enumerate(runs)]) * draw(st.sampled_from([1, -1]))
    slope = draw(st.integers(-20, 20)) + np.concatenate([[0], np.cumsum((inc * sign * np.repeat(by, runs))[1:])])
    Y = np.concatenate([[0], np.cumsum(slope)]) * 4
    ch = [int(k) for k in np.flatnonzero(np.diff(sign[1:]))]
    return {'y': Y.tolist(), 'changes': [k + 1 for k in ch], 'rev': draw(st.booleans()), 'perm': draw(st.permutations([0, 1, 2])), 'neg': draw(st.lists(st.sampled_from([1.0, -1.0, 2.0, 0.5]), min_size=2, max_size=2)), 'z': draw(st.sampled_from([0, 1, 5])), 'lay': draw(g.layout)}


@sub('C19', faint(), 1200)
def faint_inflections(c):
    Y = np.array(c['y'], dtype=float)
    n = len(Y)
    X = np.arange(n) * 1.0
    p = np.zeros((n, 3))
    i, j, k = c['perm']
    p[:, i], p[:, j], p[:, k] = X, Y, c['z'] * ((np.arange(n) * 7919) % 13 - 6.0)
    span, axis = np.zeros(3), np.zeros(3)
    span[i], axis[j] = c['neg']
    changes = c['changes']
    if c['rev']:
        p, changes = p[::-1], sorted(n - 2 - k for k in changes)
    got = indices(p, call(inflection_points, A(p, c['lay']), axis, span), 'inflection points')
    for i in got:
        require(any(abs(i - k) <= 2 for k in changes), 'sample %d of %d is reported, changes are after samples %r', i, n, changes)
    for k in changes:
        require(any(abs(i - k) <= 2 for i in got), 'no point is reported near sample %d of %d, only %r', k, n, got)
    nontrivial(np.abs(np.diff(Y, 2)).max() > 1e6)


@sub('C19', curve(), 5000)
def inflections(c):
    X, Y = np.array(c['x'], dtype=float), np.array(c['y'], dtype=float) * c['ys']
    n = len(X)
    changes = c['changes']
    if c['rev']:
        X, Y = X[::-1], Y[::-1]
        changes = [n - 2 - k for k in changes]      # between the samples k and k+1
        changes = sorted(changes)
    R = g.rot(c['q'])
    a, b, skew = c['axes']
    M = np.array([R[0] * a, R[1] * b + skew * R[0], R[2]])       # span, axis, and across
    Z = c['z'] * ((np.arange(n) * 7919) % 13 - 6.0)
    p = np.linalg.solve(M, np.vstack([X, Y, Z])).T * c['s']
    span, axis = M[0], M[1]
    label('%d inflections' % len(changes) if changes else 'convex or concave')
    t = np.array(c['t']) * c['s']
    moved = (p + t) * 4.0
    for what, q in [('', p)] + ([(' of the moved and scaled curve', moved)] if np.abs(t).max() <= 100 * np.abs(p).max() else []):
        got = indices(q, call(inflection_points, A(q, c['lay']), A(axis), A(span)), 'inflection points' + what)
        for i in got:
            require(any(abs(i - k) <= 2 for k in changes), 'sample %d of %d%s is reported, changes are after samples %r', i, n, what, changes)
        for k in changes:
            require(any(abs(i - k) <= 2 for i in got), 'no point is reported near sample %d of %d%s, only %r', k, n, what, got)
    nontrivial(n >= 8)
