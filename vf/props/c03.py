"""C03 Homogeneous coordinates: padding, unpadding and affine application."""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry.transform.composite import convert_33_to_44, convert_44_to_33
from blmath.numerics import vx
from .. import gen as g
from ..core import A, call, close, exact, label, nontrivial, raises
from ..registry import sub

D = g.Dictionary(['blmath/numerics/vector_shortcuts.py', 'blmath/geometry/transform/composite.py'])
RULE = 'Point arrays of 0 to 260 rows, affine matrices with any linear part (singular ones included), and wrong shapes; non-trivial when there are points and the linear part is not diagonal.'


def arr(x, lay='c'):
    return A(x, lay) if x else np.zeros((0, 3))


@sub('C03', g.rec(v=g.points(300, 12000, consts=D), lay=g.layout), 16, name='pad_many', purity=False, shards=2, thorough=10)
@sub('C03', g.rec(v=g.points(0, 260, consts=D), lay=g.layout), 1500)
def pad_unpad(c):
    v = arr(c['v'], c['lay'])
    n = len(v)
    p = call(vx.pad_with_ones, v)
    exact(p, np.array([x + [1.0] for x in c['v']]).reshape(n, 4), 'pad_with_ones')
    exact(call(vx.unpad, p), np.array(c['v']).reshape(n, 3), 'unpad of the padded')
    label('rows %s' % ('0' if n == 0 else '1' if n == 1 else '2+'))
    nontrivial(n > 1)


@sub('C03', g.rec(v=g.points(1, 40, consts=D), row=st.integers(0, 39), bad=st.sampled_from([0.0, 2.0, -1.0, 1 + 1e-9, 1 - 1e-12, float(np.nextafter(1.0, 2.0)), 1e9]), how=st.sampled_from(['one', 'one', 'one', 'product', 'sum', 'same', 'pair'])), 800)
def unpad_rejects(c):
    p = np.array([x + [1.0] for x in c['v']])
    i, bad = c['row'] % len(p), c['bad']
    p[i, 3] = bad
    if len(p) > 1 and c['how'] != 'one':
        # more than one wrong number: such that their product or mean is one, all the same, or two of them
        if c['how'] == 'same':
            p[:, 3] = bad
        else:
            p[i - 1, 3] = {'product': 1 / bad if bad else 3.0, 'sum': 2 - bad, 'pair': bad}[c['how']]
    label(c['how'])
    raises(ValueError, vx.unpad, p)
    nontrivial(len(p) > 1)


STRUCTURES = ['diagonal', 'skew', 'symmetric', 'upper', 'lower', 'permuted', 'rank one', 'last column', 'no trace']


def structured(m, how):
    if how == 'diagonal':
        return np.diag(np.diag(m))
    if how == 'skew':
        return m - m.T
    if how == 'symmetric':
        return m + m.T
    if how == 'permuted':
        return np.diag(np.diag(m))[[1, 2, 0]]
    if how == 'rank one':
        return np.outer(m[0], m[1])
    if how == 'last column':
        return m * [0, 0, 1]
    if how == 'no trace':
        return m - np.diag([0, 0, np.trace(m)])
    return np.triu(m) if how == 'upper' else np.tril(m)


@st.composite
def affine(draw):
    lin = np.array(draw(g.nums(9, consts=D))).reshape(3, 3) * draw(st.sampled_from([1.0, 0.1, 10.0]))
    k = draw(st.integers(0, 7))
    if k <= 1:
        # the identity, or almost
        lin = np.eye(3) + draw(st.sampled_from([0.0, 1e-2, 1e-4, 1e-6, 1e-9])) * lin
    elif k == 2:
        lin = structured(lin, draw(st.sampled_from(STRUCTURES)))
    t = np.array(draw(g.nums(3))) * draw(st.sampled_from([1.0, 0.0, 100.0, 1e-6]))
    m = np.eye(4)
    m[:3, :3] = lin
    m[:3, 3] = t
    return (m + 0.0).tolist()


@sub('C03', g.rec(v=g.points(300, 12000, consts=D), m1=affine(), m2=affine(), lay=g.layout), 24, name='apply_many', purity=False, shards=2, thorough=10)
@sub('C03', g.rec(v=g.points(0, 120, consts=D), m1=affine(), m2=affine(), lay=g.layout), 2500)
def apply(c):
    v, n = np.array(c['v']).reshape(-1, 3), len(c['v'])
    m1, m2 = np.array(c['m1']), np.array(c['m2'])

    def ref(m, pts):
        return np.array([[sum(m[i, j] * x[j] for j in range(3)) + m[i, 3] for i in range(3)] for x in pts]).reshape(-1, 3)
    size = (np.abs(v).max() if n else 0.0)
    t1 = 1e-12 * (np.abs(m1[:3, :3]).max() * size * 3 + np.abs(m1[:3, 3]).max() + 1)
    w1 = ref(m1, v)
    r1 = call(vx.apply_homogeneous, arr(c['v'], c['lay']), A(c['m1'], c['lay']))
    close(r1, w1, t1, 'apply_homogeneous', ndarray=True)
    t2 = 1e-11 * (np.abs(m2[:3, :3]).max() * (np.abs(w1).max() if n else 0) * 3 + np.abs(m2).max() + 1) + 9 * np.abs(m2[:3, :3]).max() * t1
    r2 = call(vx.apply_homogeneous, np.asarray(r1), m2)
    close(call(vx.apply_homogeneous, arr(c['v']), np.dot(m2, m1)), r2, t2, 'apply_homogeneous of a product')
    nontrivial(n > 0 and np.any(m1[:3, :3] - np.diag(np.diag(m1[:3, :3])) != 0))


@sub('C03', g.rec(v=g.points(1, 20), m=affine(), k=st.integers(0, 3), x=st.sampled_from([0.5, -1.0, 1e-3, 2.0, 1e3, 1e-5, -1e-7])), 600)
def apply_rejects_projective(c):
    m = np.array(c['m'])
    m[3, c['k']] += c['x']
    v = np.array(c['v'])
    w = v.dot(m[3, :3]) + m[3, 3]
    if np.all(np.abs(w - 1) < 1e-9):
        label('ones after all')
        return
    raises(ValueError, vx.apply_homogeneous, v, m)
    nontrivial(len(v) > 1)


shapes = st.one_of(st.lists(st.integers(0, 6), min_size=1, max_size=3), st.sampled_from([[3], [4], [3, 3], [4, 4], [3, 4], [4, 3], [2, 3], [3, 2], [1, 3, 3], [9], [16], [3, 3, 1], [4, 4, 4]]))


@sub('C03', g.rec(shape=shapes, m=affine()), 1200)
def wrong_shapes(c):
    s = c['shape']
    a = np.ones(s)
    ok = np.array([[1.0, 2.0, 3.0]])
    if not (len(s) == 2 and s[1] == 3):
        raises(ValueError, vx.pad_with_ones, a)
        raises(ValueError, vx.apply_homogeneous, a, np.array(c['m']))
    if not (len(s) == 2 and s[1] == 4):
        raises(ValueError, vx.unpad, a)
    if s != [4, 4]:
        raises(ValueError, vx.apply_homogeneous, ok, a)
        raises(ValueError, convert_44_to_33, a)
    if s != [3, 3]:
        raises(ValueError, convert_33_to_44, a)
    nontrivial(len(s) == 2)


@sub('C03', g.rec(m=g.nums(16, consts=D), lay=g.layout, ints=st.booleans(), how=st.sampled_from(['any'] * 9 + STRUCTURES)), 1500)
def embed(c):
    m = np.array(c['m'])
    if c['ints']:
        m = np.round(m)
    dt = np.int64 if c['ints'] else np.float64
    m3, m4 = m[:9].reshape(3, 3), m.reshape(4, 4)
    if c['how'] != 'any':
        m3 = structured(m3, c['how'])
        m4 = m4 * 1.0
        m4[:3, :3] = m3
    want = np.eye(4)
    want[:3, :3] = m3
    r = call(convert_33_to_44, A(m3, c['lay'], dt))
    exact(r, want, 'convert_33_to_44')
    exact(call(convert_44_to_33, np.array(r)), m3, 'convert_44_to_33 of convert_33_to_44')
    exact(call(convert_44_to_33, A(m4, c['lay'], dt)), m4[:3, :3], 'convert_44_to_33')
    nontrivial(np.any(m3 - np.diag(np.diag(m3)) != 0))
