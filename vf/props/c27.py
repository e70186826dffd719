"""C27 Gram-Schmidt and change of basis are algebraically exact."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from blmath.numerics.linalg import gram_schmidt
from blmath.numerics.linalg.isomorphism import DimensionalityError, LinearDependenceError, isomorphism
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require, short
from ..registry import sub

D = g.Dictionary(['blmath/numerics/linalg/gram_schmidt.py', 'blmath/numerics/linalg/isomorphism.py'])
RULE = 'One to six vectors in up to seven dimensions, on grids or anywhere and of very different lengths, and pairs of bases of up to six vectors; the orthogonal vectors are computed with rational numbers; non-trivial when there are at least three vectors which are not orthogonal already.'
ASSUMPTIONS = ['classical Gram-Schmidt: tolerances grow with the square of the condition number, and sets with one above 300 are left out', 'dependent frames are exact combinations of integers, times a power of two']


def reference(v):
    """Gram-Schmidt with rational numbers."""
    out = []
    for row in v:
        w = [Fraction(float(x)) for x in row]
        o = list(w)
        for u in out:
            c = sum(a * b for a, b in zip(w, u)) / sum(a * a for a in u)
            o = [a - c * b for a, b in zip(o, u)]
        out.append(o)
    return np.array([[float(x) for x in row] for row in out])


def almost(draw, m, n):
    """Some rows of an orthogonal matrix, not exactly."""
    v = np.array(draw(st.permutations(np.eye(n).tolist())))[:m] * draw(st.sampled_from([1.0, 1.0, -1.0]))
    if draw(st.booleans()):
        v = v.dot(np.linalg.qr(np.array(draw(g.nums(n * n))).reshape(n, n) + 3 * np.eye(n))[0])
    e = draw(st.sampled_from(g.NEAR))
    return v * (1 + e) if draw(st.booleans()) else v + e * np.array(draw(g.nums(m * n, mode='int'))).reshape(m, n)


@st.composite
def rows(draw):
    n = draw(st.integers(1, 7))
    m = draw(st.integers(1, min(n, 6)))
    v = np.array(draw(g.nums(m * n, consts=D))).reshape(m, n)
    if draw(st.integers(0, 2)) == 0:
        v = v + 4 * np.eye(m, n)
    k = draw(st.integers(0, 4))
    s = draw(st.sampled_from([1.0, 1.0, 0.01, 100.0, 1e6, 1e-6, 3.7]))
    if k == 1 and m > 1:
        i = draw(st.integers(0, m - 1))
        v[i] = v[i] * draw(st.sampled_from([100.0, 0.01, 1e4, 1e-4]))
    if k == 2:
        # almost orthonormal already
        return (almost(draw, m, n) + 0.0).tolist()
    if k == 3 and draw(st.booleans()):
        # vectors almost of unit length
        l = np.linalg.norm(v, axis=1)
        v = v / np.where(l > 0, l, 1.0)[:, None] * (1 + draw(st.sampled_from(g.NEAR)) * np.array(draw(g.nums(m, mode='int')))[:, None])
        s = 1.0
    return (v * s + 0.0).tolist()


def condition(v):
    n = np.linalg.norm(v, axis=1)
    if np.any(n == 0):
        return np.inf
    s = np.linalg.svd(v / n[:, None], compute_uv=False)
    return s[0] / s[-1] if s[-1] > 0 else np.inf


@sub('C27', g.rec(v=rows(), norm=st.booleans(), idx=st.lists(st.integers(0, 5), max_size=4), which=st.booleans(), lay=g.layout, int=st.integers(0, 4)), 5000)
def orthogonal(c):
    v = np.array(c['v'])
    dt = np.float64
    if c['int'] == 0 and np.abs(v).max() < 1e6:
        v, dt = np.round(v), np.int64
    k = condition(v)
    if not k < 300:
        label('dependent or nearly')
        return
    ref = reference(v)
    norms = np.linalg.norm(v, axis=1)
    ln = np.linalg.norm(ref, axis=1)
    tol = (1e-14 * k * k * norms)[:, None]
    arg = A(v, c['lay'], dt)
    if not c['norm']:
        r = num_array(call(gram_schmidt.orthogonalize, arg), 'orthogonalize', v.shape)
        close(r, ref, tol, 'orthogonalize')
        exact(r[0], v[0], 'the first vector')
        label('orthogonalize')
    else:
        idx = sorted({i for i in c['idx'] if i < len(v)})
        r = call(gram_schmidt.orthonormalize, arg, idx) if c['which'] else call(gram_schmidt.orthonormalize, arg)
        r = num_array(r, 'orthonormalize', v.shape)
        unit = set(idx) if c['which'] else set(range(len(v)))
        scale = np.array([ln[i] if i in unit else 1.0 for i in range(len(v))])[:, None]
        close(r, ref / scale, tol / scale, 'orthonormalize%s' % (' of %r' % idx if c['which'] else ''))
        close(np.linalg.norm(r[sorted(unit)], axis=1), np.ones(len(unit)), 1e-12, 'length')
        label('some unit' if c['which'] else 'orthonormalize')
    # orthogonal to each other
    u = r / np.linalg.norm(r, axis=1)[:, None]
    close(u.dot(u.T), np.eye(len(v)), 1e-13 * k ** 2 * (norms / ln).max(), 'inner products')
    nontrivial(len(v) >= 3 and np.abs(v.dot(v.T) - np.diag(np.diag(v.dot(v.T)))).max() > 0)


@sub('C27', g.rec(seed=st.integers(0, 2 ** 31), m=st.integers(8, 70), extra=st.integers(0, 40), s=g.scale(), shift=st.sampled_from([0.0, 2.0, 8.0]), idx=st.lists(st.integers(0, 69), max_size=12), lay=g.layout), 60, shards=2, thorough=10)
def many_vectors(c):
    """Up to 70 vectors: against Householder's QR."""
    m = c['m']
    n = m + c['extra']
    v = g.decode(np.random.RandomState(c['seed']).bytes(2 * m * n), 'gen').reshape(m, n) * c['s'] + c['shift'] * 10 * c['s'] * np.eye(m, n)
    k = condition(v)
    if not k < 1000:
        label('nearly dependent')
        return
    q, r = np.linalg.qr(v.T)
    ref = (q * np.diag(r)).T
    norms, ln = np.linalg.norm(v, axis=1), np.abs(np.diag(r))
    tol = (1e-13 * k * k * norms)[:, None]
    close(call(gram_schmidt.orthogonalize, A(v, c['lay'])), ref, tol, 'orthogonalize')
    close(call(gram_schmidt.orthonormalize, A(v, c['lay'])), ref / ln[:, None], tol / ln[:, None], 'orthonormalize')
    idx = sorted({i for i in c['idx'] if i < m})
    scale = np.array([ln[i] if i in idx else 1.0 for i in range(m)])[:, None]
    close(call(gram_schmidt.orthonormalize, A(v, c['lay']), idx), ref / scale, tol / scale, 'orthonormalize of %r' % idx)
    b = g.decode(np.random.RandomState(c['seed'] + 1).bytes(2 * m * m), 'gen').reshape(m, m) + c['shift'] * np.eye(m)
    a = v[:, :m]
    ka, kb = np.linalg.cond(a), np.linalg.cond(b)
    if ka < 1e9 and kb < 1e9:
        t = num_array(call(isomorphism, A(a, c['lay']), b.copy()), 'isomorphism', a.shape)
        close(a.T.dot(t), b.T, 1e-13 * ka * np.abs(b).max() * m, 'basis 1 times M')
        label('basis')
    nontrivial()


@sub('C27', g.rec(u=g.points(1, 1, dups=False), d=st.integers(1, 3), v=g.points(1, 1), int=st.booleans()), 2500)
def projection(c):
    u, v = np.array(c['u'][0][:c['d']]), np.array(c['v'][0][:c['d']])
    dt = np.float64
    if c['int'] and max(np.abs(u).max(), np.abs(v).max()) < 1e6:
        u, v, dt = np.round(u), np.round(v), np.int64
    if not np.any(np.abs(u) > 1e-100):
        return
    r = call(gram_schmidt.proj, A(u, 'c', dt), A(v, 'c', dt))
    close(r, u.dot(v) / u.dot(u) * u, 1e-14 * np.linalg.norm(v), 'projection')
    nontrivial(len(u) > 1 and u.dot(v) != 0)


@st.composite
def frames(draw):
    n = draw(st.integers(1, 6))
    a, b = [np.array(draw(g.nums(n * n, consts=D))).reshape(n, n) + (3 * np.eye(n) if draw(st.booleans()) else 0) for _ in range(2)]
    k = draw(st.integers(0, 7))
    if k == 0:
        b = a.copy()
    if k == 1:
        a = np.eye(n)
    if k == 2:
        b = np.eye(n)
    if k in (4, 5):
        a = almost(draw, n, n)
    if k == 5:
        b = almost(draw, n, n)
    if k == 3:
        for f in (a, b):
            i = draw(st.integers(0, n - 1))
            f[i] *= draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-7, 1e4, 1.0]))
    s, t = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e-60])), draw(st.sampled_from([1.0, 1.0, 1e-3, 1e3, 1e60]))
    return [(a * s).tolist(), (b * t).tolist()]


@sub('C27', g.rec(f=frames(), list=st.booleans(), lay=g.layout), 4000)
def basis(c):
    a, b = np.array(c['f'][0]), np.array(c['f'][1])
    ka, kb = np.linalg.cond(a), np.linalg.cond(b)
    if not ka < 1e9 or not kb < 1e9:
        label('nearly dependent')
        return
    args = (c['f'][0], c['f'][1]) if c['list'] else (A(a, c['lay']), A(b, c['lay']))
    m = num_array(call(isomorphism, *args), 'isomorphism', a.shape)
    ref = np.linalg.solve(a.T, b.T)
    close(m, ref, 1e-13 * ka * np.abs(ref).max(), 'isomorphism')
    # columns of basis 1, transformed, are those of basis 2
    close(a.T.dot(m), b.T, 1e-13 * ka * np.abs(b).max() * len(a), 'basis 1 times M')
    back = num_array(call(isomorphism, *args[::-1]), 'isomorphism back', a.shape)
    close(m.dot(back), np.eye(len(a)), 1e-12 * ka * kb, 'there and back')
    nontrivial(len(a) > 1 and not np.array_equal(a, b))


@st.composite
def bad_frames(draw):
    kind = draw(st.sampled_from(['dependent', 'dependent', 'count', 'dimension', 'zero']))
    n = draw(st.integers(2 if kind != 'zero' else 1, 6))
    a = np.array(draw(g.nums(n * n, mode='int'))).reshape(n, n)
    good = np.eye(n) * 2 + np.triu(np.array(draw(g.nums(n * n, mode='int'))).reshape(n, n), 1)
    if kind in ('dependent', 'zero'):
        i = draw(st.integers(0, n - 1))
        if kind == 'zero':
            a[i] = 0
        else:
            co = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
            a[i] = sum(k * a[j] for j, k in enumerate(co) if j != i)
        a = a * draw(st.sampled_from([1.0, 0.5, 1024.0, 2.0 ** -40]))
        pair = [a, good]
    elif kind == 'count':
        m = draw(st.sampled_from([k for k in range(1, 7) if k != n]))
        pair = [np.eye(m) * 3, good]
    else:
        m = draw(st.sampled_from([k for k in range(1, 7) if k != n]))
        pair = [np.ones((n, m)) + np.eye(n, m), good]
    if draw(st.booleans()):
        pair = pair[::-1]
    return [kind, [(p + 0.0).tolist() for p in pair]]


@sub('C27', bad_frames(), 3000)
def rejected(kp):
    kind, (a, b) = kp
    exc = LinearDependenceError if kind in ('dependent', 'zero') else DimensionalityError
    raises(exc, isomorphism, np.array(a), np.array(b), _what='isomorphism of %s frames' % kind)
    require(issubclass(exc, ValueError), 'not a ValueError')
    label(kind)
    nontrivial()
