"""C07 Canonical orientation: up/look frames and rotation to the xz plane."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry.transform.rotation import estimate_normal, rotate_to_xz_plane, rotation_from_up_and_look
from blmath.geometry.transform import rotation_from_up_and_look as exported
from blmath.geometry.transform.translation import translation
from .. import gen as g
from ..core import A, call, close, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/transform/rotation.py', 'blmath/geometry/transform/translation.py'])
RULE = 'Vector pairs of all directions and lengths; planar point sets in any position, with normals near and away from +y and -y; non-trivial when nothing is along a coordinate axis.'
ASSUMPTIONS = ['explicit normals are unit vectors; within 1e-5 of +y or -y the code documents an accuracy of that size']


def proper(R, tol, what):
    R = num_array(R, what, (3, 3))
    close(R.dot(R.T), np.eye(3), tol, what + ': R R^T')
    close(np.linalg.det(R), 1.0, tol, what + ': determinant')
    return R


@sub('C07', g.rec(up=g.direction(consts=D), look=g.direction(consts=D), k=st.sampled_from([2.0, 0.1, 1e3, 1.0, 1e-9, 1e9, 1e-12]), form=st.sampled_from(['array', 'list', 'int'])), 4000)
def up_and_look(c):
    up, look = c['up'], c['look']
    if c['form'] == 'int':
        up, look = [round(x) for x in up], [round(x) for x in look]
    u, l = np.array(up, dtype=float), np.array(look, dtype=float)
    nu, nl = np.linalg.norm(u), np.linalg.norm(l)
    if nu == 0 or nl == 0:
        raises(ValueError, rotation_from_up_and_look, up, look)
        return
    sin = np.linalg.norm(np.cross(u / nu, l / nl))
    if sin < 1e-9:
        label('nearly collinear')
        if sin < 1e-14:
            raises(ValueError, rotation_from_up_and_look, up, look)
        return
    f = np.array if c['form'] == 'array' else list
    R = call(rotation_from_up_and_look, f(up), f(look))
    tol = 1e-14 / sin + 1e-13
    R = proper(R, tol, 'rotation_from_up_and_look')
    close(R.dot(u / nu), [0, 1, 0], tol, 'R up')
    v = R.dot(l / nl)
    close(v, [0, float(u.dot(l)) / nu / nl, sin], 2 * tol, 'R look')
    close(call(exported, u * c['k'], l / c['k']), R, 4 * tol, 'for vectors of other lengths')
    nontrivial(np.abs(R - np.round(R)).max() > 1e-6)


@sub('C07', g.rec(v=g.direction(), k=st.sampled_from([1.0, -1.0, 2.0, -0.5, 0.0, 4.0]), which=st.booleans(), form=st.sampled_from(['array', 'list'])), 600)
def singular(c):
    f = np.array if c['form'] == 'array' else list
    w = [x * c['k'] for x in c['v']]
    a, b = (c['v'], w) if c['which'] else (w, c['v'])
    raises(ValueError, rotation_from_up_and_look, f(a), f(b))
    nontrivial(c['k'] != 0)


@st.composite
def planar(draw, lo=3, hi=60):
    """Points near a plane (exactly in it, or off it by a small amount), not all on a line."""
    n = draw(g.size(lo, hi, D))
    uv = np.array(draw(g.nums(2 * n))).reshape(n, 2)
    q = draw(g.quaternion())
    off = draw(st.sampled_from([0.0, 0.0, 0.01, 0.01, 0.3, 2.0]))
    w = np.array(draw(g.nums(n, mode='gen'))) * off / 10 if off else np.zeros(n)
    big = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    t = np.array(draw(g.nums(3))) * draw(st.sampled_from([0.0, 1.0, 30.0]))
    p = np.column_stack([uv, w]).dot(g.rot(q).T) * big + t * big
    k = draw(st.integers(0, 9))
    if k <= 2:
        p = p - p.mean(axis=0)
    if k in (1, 2):
        # a centroid about as far from the origin as makes a difference
        p = p + draw(st.sampled_from([0.3, 0.6, 0.9, 1.1, 1.6, 2.5])) * 1e-5 * np.array(draw(st.sampled_from([[1.0, 0, 0], [0, -1.0, 0], [0.7, 0.7, 0], [0, 0.65, -0.7], [0.6, 0.5, 0.6], [-0.6, 0.6, 0.5]])))
    if n < 300 and draw(st.booleans()):
        # some points many times
        p = np.repeat(p, [draw(st.sampled_from([1, 1, 1, 2, 3, 12])) for _ in range(n)], axis=0)
    return (p + 0.0).tolist()


def spread(p):
    return np.linalg.svd(p - p.mean(axis=0), compute_uv=False) / math.sqrt(len(p))


@st.composite
def normals(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return None
    if k == 1:
        e = draw(st.sampled_from([0.0, 1e-7, 1e-6, 3e-6, 2e-5, 1e-4, 1e-3, 0.1]))
        v = np.array([0.0, draw(st.sampled_from([1.0, -1.0])), 0.0]) + e * np.array([1.0, 0.0, 0.0]).dot(g.rot(draw(g.quaternion())))
    else:
        v = np.array(draw(g.direction(scales=(1.0,))))
    v = v / np.linalg.norm(v) + 0.0
    # a unit vector to within rounding, as products of rotations are
    return (v * (1.0 + draw(st.sampled_from([0, 0, 1, 2, -2])) * 2.0 ** -52)).tolist()


@sub('C07', g.rec(p=planar(300, 12000), normal=normals(), lay=g.layout), 16, name='to_xz_plane_many', purity=False, shards=2, thorough=10)
@sub('C07', g.rec(p=planar(), normal=normals(), lay=g.layout), 2500)
def to_xz_plane(c):
    p = np.array(c['p'])
    s = spread(p)
    if s[1] < 1e-3 * s[0] or s[0] == 0:
        label('collinear')
        return
    r = call(rotate_to_xz_plane, A(c['p'], c['lay'])) if c['normal'] is None else call(rotate_to_xz_plane, A(c['p'], c['lay']), normal=np.array(c['normal']))
    require(isinstance(r, tuple) and len(r) == 3, 'rotate_to_xz_plane should return three things')
    rotated, R, p0 = r
    size = np.abs(p).max() + 1
    centre = p.mean(axis=0)
    R = proper(R, 1e-9, 'rotate_to_xz_plane')
    d = np.linalg.norm(centre)
    if abs(d - 1e-5) > 1e-9 * size:
        if d > 1e-5:
            require(p0 is not None, 'the translation is None although the centroid is %r from the origin', d)
            close(p0, -centre, 1e-12 * size, 'the translation', ndarray=True)
            label('translated')
        else:
            require(p0 is None, 'the translation should be None for a centroid at the origin, got %r', p0)
            label('centred')
    moved = p if p0 is None else p + np.asarray(p0)
    close(rotated, moved.dot(R.T), 1e-11 * size, 'the rotated points', ndarray=True)
    n = c['normal']
    if n is None:
        # the least variance direction, up to sign
        if True:
            heights = np.asarray(rotated)[:, 1]
            want = s[2]
            close(math.sqrt(float(np.mean((heights - heights.mean()) ** 2))), want, 1e-5 * s[0] + 1e-9 * size, 'the spread of the rotated points along y')
        label('estimated')
    else:
        n = np.array(n)
        off = min(np.linalg.norm(n - [0, 1, 0]), np.linalg.norm(n + [0, 1, 0]))
        # acos(n . y) has the accuracy of the square root near the poles
        tol = 2.2 * off + 1e-7 if off < 1.2e-5 else 1e-9 + 3e-16 / off
        close(R.dot(n), [0, 1, 0], tol, 'R normal')
        label('given, near a pole' if off < 1e-2 else 'given')
    nontrivial(np.abs(R - np.round(R)).max() > 1e-6)


@sub('C07', g.rec(kind=st.sampled_from(['none', 'empty', 'list']), n=normals()), 60, shards=1)
def no_points(c):
    p = {'none': None, 'empty': np.zeros((0, 3)), 'list': []}[c['kind']]
    if c['n'] is None:
        raises(ValueError, rotate_to_xz_plane, p)
    else:
        raises(ValueError, rotate_to_xz_plane, p, normal=np.array(c['n']))
    nontrivial()


@sub('C07', g.rec(p=st.one_of(planar(300, 12000), g.points(300, 12000, consts=D)), lay=g.layout), 16, name='normal_estimate_many', purity=False, shards=2, thorough=10)
@sub('C07', g.rec(p=st.one_of(planar(), g.points(3, 40)), lay=g.layout), 1500)
def normal_estimate(c):
    p = np.array(c['p'])
    s = spread(p)
    n = call(estimate_normal, A(c['p'], c['lay']))
    n = num_array(n, 'estimate_normal', (3,))
    close(np.linalg.norm(n), 1.0, 1e-12, 'length of the normal')
    q = p - p.mean(axis=0)
    # for a set which is small for its distance from the origin the covariance loses half of the digits
    close(math.sqrt(np.mean(q.dot(n) ** 2)), s[2], 1e-6 * s[0] + (1e-12 if s[0] > 0.1 * np.abs(p).max() else 1e-7) * np.abs(p).max(), 'the spread of the points along the estimated normal')
    nontrivial(s[2] < 0.9 * s[1] and s[1] > 1e-3 * s[0])


@sub('C07', g.rec(p=g.points(300, 12000, consts=D), t=st.one_of(st.none(), g.nums(3, consts=D)), lay=g.layout, zero=st.booleans()), 16, name='translate_many', purity=False, shards=2, thorough=10)
@sub('C07', g.rec(p=g.points(1, 200, consts=D), t=st.one_of(st.none(), g.nums(3, consts=D)), lay=g.layout, zero=st.booleans(), pw=st.one_of(st.just([]), st.lists(st.integers(-20, 9), min_size=1, max_size=7))), 1500)
def translate(c):
    p = np.array(c['p'])
    if c.get('pw'):
        # coordinates of very different sizes
        p = p * np.resize(10.0 ** np.array(c['pw'], dtype=float), p.shape)
        c = dict(c, p=p.tolist())
    size = np.abs(p).max()
    t = c['t']
    if t is not None and c['zero']:
        t = [0.0, 0.0, 0.0]
    r = call(translation, A(c['p'], c['lay'])) if t is None else call(translation, A(c['p'], c['lay']), np.array(t))
    require(isinstance(r, tuple) and len(r) == 2, 'translation should return a pair')
    if t is None:
        want = [-math.fsum(col) / len(p) for col in zip(*c['p'])]
        close(r[1], want, 4e-12 * size, 'the default translation')
        close(np.mean(np.asarray(r[0]), axis=0), np.zeros(3), 1e-11 * size, 'the centroid after the default translation')
        close(r[0], p + np.array(want), 1e-11 * size, 'the translated points', ndarray=True)
    else:
        exact(r[1], t, 'the returned translation')
        close(r[0], p + np.array(t), 4e-16 * (np.abs(p) + np.abs(t)), 'the translated points', ndarray=True)
    nontrivial(len(p) > 1)
