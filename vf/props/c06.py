"""C06 Rotation vectors, matrices and Euler angles convert faithfully."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import env
ch = env.load_chumpy()['ch']
from blmath.geometry.transform.rodrigues import Rodrigues, as_rotation_matrix, rodrigues
from blmath.geometry.transform.rotation import euler
from .. import gen as g
from ..core import A, call, close, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/transform/rodrigues.py', 'blmath/geometry/transform/rotation.py'])
RULE = 'Rotation vectors with angles from 0 and 1e-9 to several turns, concentrated near 0 and near odd multiples of pi, and matrices of every rotation; non-trivial when axis and angle are generic, or the angle is within 1e-2 of 0 or pi.'
ASSUMPTIONS = ['a rotation within 1e-5 of the identity or of a half turn may be off by that much when converted from a matrix, as the code documents by its threshold']

PI = math.pi
ANGLES = [0.0, 1e-200, 1e-30, 1e-17, 2e-16, 3e-16, 1e-14, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 0.1, 0.5, 1.0, PI / 3, PI / 2, 2.0, 3.0, PI - 1e-3, PI - 1e-5, PI - 1e-7, PI, PI + 1e-7, PI + 1e-3, 3.5, 5.0, 2 * PI - 1e-3, 2 * PI, 2 * PI + 1e-4, 7.5, 3 * PI, 15.0]


@st.composite
def axis_angle(draw, angles=ANGLES):
    v = np.array(draw(g.direction(scales=(1.0,), consts=D)))
    v = v / np.linalg.norm(v)
    k = draw(st.integers(0, 2))
    if k == 0:
        t = draw(st.sampled_from(angles + [abs(x) for x in D.values if abs(x) < 4]))
    elif k == 1:
        t = abs(draw(g.nums(1, mode='gen'))[0])
    else:
        t = draw(st.sampled_from([0.0, PI / 2, PI])) + draw(st.sampled_from([1e-2, 1e-4, 2e-5, 1e-6, 1e-3])) * abs(draw(g.nums(1, mode='gen'))[0])
    return [(v + 0.0).tolist(), t]


def ref(v):
    v = np.array(v, dtype=float).ravel()
    t = math.sqrt(math.fsum(v * v))
    if t == 0:
        return np.eye(3)
    return g.rot([math.cos(t / 2)] + [math.sin(t / 2) * x / t for x in v])


def proper(R, tol, what):
    R = num_array(R, what, (3, 3))
    close(R.dot(R.T), np.eye(3), tol, what + ': R R^T')
    close(np.linalg.det(R), 1.0, tol, what + ': determinant')


def loose(R):
    """How far a rotation may be off after going through a vector."""
    w = 0.5 * np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    sin = np.linalg.norm(w)
    return 3e-5 if sin < 3e-5 else 1e-12 + 1e-13 / sin


shape3 = st.sampled_from([[3], [3, 1], [1, 3], 'list'])


def shaped(v, s):
    return list(v) if s == 'list' else np.array(v).reshape(s)


@sub('C06', g.rec(aa=axis_angle(), shape=shape3), 3000)
def vector_to_matrix(c):
    v = [c['aa'][1] * x for x in c['aa'][0]]
    want = ref(v)
    got = call(rodrigues, shaped(v, c['shape']))
    close(got, want, 1e-12 * (1 + c['aa'][1]), 'rodrigues of a vector', ndarray=True)
    proper(got, 1e-12, 'rodrigues of a vector')
    if c['shape'] != 'list':
        close(call(as_rotation_matrix, shaped(v, c['shape'])), want, 1e-12 * (1 + c['aa'][1]), 'as_rotation_matrix of a vector')
    t = c['aa'][1]
    label('angle %s' % ('0' if t < 1e-8 else 'tiny' if t < 1e-2 else 'near pi' if abs(t - PI) < 1e-2 else '< pi' if t < PI else '> pi'))
    nontrivial(1e-10 < t)


@st.composite
def rotation(draw):
    if draw(st.booleans()):
        return (g.rot(draw(g.quaternion())) + 0.0).tolist()
    a, t = draw(axis_angle())
    return (ref([t * x for x in a]) + 0.0).tolist()


@sub('C06', g.rec(R=rotation(), lay=g.layout), 4000)
def matrix_to_vector(c):
    R = np.array(c['R'])
    r = call(rodrigues, A(c['R'], c['lay']))
    rv = num_array(r, 'rodrigues of a matrix', (3, 1))
    ang = np.linalg.norm(rv)
    require(ang <= PI + 1e-9, 'the rotation vector has length %r, more than pi', ang)
    tol = loose(R)
    close(ref(rv), R, tol, 'the rotation by the vector which rodrigues gives for a matrix')
    close(call(rodrigues, np.array(rv)), R, tol, 'rodrigues of rodrigues of a matrix')
    close(call(as_rotation_matrix, A(c['R'], c['lay'])), R, tol, 'as_rotation_matrix of a matrix')
    cos = (np.trace(R) - 1) / 2
    label('half turn' if cos < -1 + 1e-9 else 'near pi' if cos < -0.9999 else 'identity' if cos > 1 - 1e-12 else 'generic')
    nontrivial(np.abs(R - np.round(R)).max() > 1e-6)


@sub('C06', g.rec(aa=axis_angle([0.1, 0.5, 1.0, 2.0, 2.5, 3.0, PI / 2]), s=shape3), 1500)
def vector_round_trip(c):
    t = c['aa'][1] % PI
    v = [t * x for x in c['aa'][0]]
    R = call(rodrigues, shaped(v, c['s']))
    back = call(rodrigues, np.array(R))
    sin = math.sin(t)
    if sin < 1e-4:
        label('near 0 or pi')
        return
    close(np.asarray(back).ravel() if isinstance(back, np.ndarray) else back, v, 1e-11 / sin, 'rodrigues and back')
    nontrivial()


@sub('C06', g.rec(R=rotation(), e=g.nums(9, mode='gen'), s=st.sampled_from([1e-3, 1e-2, 1e-5, 1e-6, 1e-7])), 1000)
def noisy_matrix(c):
    """A matrix which is nearly a rotation counts as the nearest rotation."""
    M = np.array(c['R']) + c['s'] * np.array(c['e']).reshape(3, 3) / 10
    X = M.copy()
    for _ in range(30):
        X = 0.5 * (X + np.linalg.inv(X).T)
    tol = loose(X) * 3
    got = call(as_rotation_matrix, M)
    close(got, X, tol, 'as_rotation_matrix of a noisy matrix')
    proper(got, 1e-11, 'as_rotation_matrix of a noisy matrix')
    nontrivial()


@sub('C06', g.rec(aa=axis_angle(), shape=shape3, d=g.direction(scales=(1.0,))), 1500)
def jacobian_of_vector(c):
    t = c['aa'][1]
    v = np.array([t * x for x in c['aa'][0]])
    r = call(rodrigues, shaped(v, c['shape']), calculate_jacobian=True)
    require(isinstance(r, tuple) and len(r) == 2, 'rodrigues with calculate_jacobian should return a pair')
    close(r[0], ref(v), 1e-12 * (1 + t), 'rodrigues of a vector, with the Jacobian')
    J = num_array(r[1], 'Jacobian', (3, 9))
    h = 1e-5
    for i in range(3):
        e = np.zeros(3)
        e[i] = h
        fd = (8 * (ref(v + e) - ref(v - e)) - (ref(v + 2 * e) - ref(v - 2 * e))) / (12 * h)
        close(J[i].reshape(3, 3), fd, 1e-7 if t > 1e-12 else 1e-7, 'the Jacobian with respect to component %d' % i)
    nontrivial(t > 1e-3)


@sub('C06', g.rec(R=rotation(), w=g.direction(scales=(1.0,))), 1500)
def jacobian_of_matrix(c):
    R = np.array(c['R'])
    cos = (np.trace(R) - 1) / 2
    sin = np.linalg.norm([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    if cos < 0 and sin < 1e-2:
        label('near pi')
        return
    if sin < 1e-4 and cos > 0 and sin > 1e-9:
        label('tiny')
        return
    w = np.array(c['w'])
    w = w / np.linalg.norm(w)
    r = call(rodrigues, R, calculate_jacobian=True)
    require(isinstance(r, tuple) and len(r) == 2, 'rodrigues with calculate_jacobian should return a pair')
    J = num_array(r[1], 'Jacobian', (9, 3))
    W = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])

    def log(M):
        v = 0.5 * np.array([M[2, 1] - M[1, 2], M[0, 2] - M[2, 0], M[1, 0] - M[0, 1]])
        s, k = np.linalg.norm(v), (np.trace(M) - 1) / 2
        return v * (math.atan2(s, k) / s if s > 1e-12 else 1.0)
    h = 1e-3 * max(sin, 1e-4) if sin > 1e-9 else 1e-4
    fd = (log(ref(h * w).dot(R)) - log(ref(-h * w).dot(R))) / (2 * h)
    got = W.dot(R).ravel().dot(J)
    close(got, fd, 1e-5 / max(sin, 1e-2), 'the derivative of the rotation vector when the rotation turns about %r' % (w.tolist(),))
    nontrivial(sin > 1e-3)


@sub('C06', g.rec(shape=st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=3), st.sampled_from([[9], [1], [4, 4], [3, 4], [3, 2], [2, 3], [1, 4], [1, 1, 3], [3, 3, 1], [1, 9]]))), 300, shards=1)
def wrong_shapes(c):
    s = c['shape']
    if s in ([3], [3, 1], [1, 3], [3, 3]):
        return
    a = np.ones(s) * 0.5
    raises(Exception, rodrigues, a)
    raises(Exception, as_rotation_matrix, a)
    nontrivial(len(s) == 2)


@sub('C06', g.rec(ang=g.nums(4, consts=D), k=st.sampled_from([1.0, 30.0, 45.0, 0.01, 100.0]), order=st.sampled_from(['xyz', 'xzy', 'yxz', 'yzx', 'zxy', 'zyx', 'x', 'y', 'z', 'xy', 'zx', 'yz', 'xyx', 'zxz', 'xyzx', None]),
                  units=st.sampled_from(['deg', 'rad', None]), scalar=st.booleans(), form=st.sampled_from(['list', 'array', 'tuple'])), 2500)
def euler_angles(c):
    order = c['order'] or 'xyz'
    kw = {}
    if c['order']:
        kw['order'] = order
    if c['units']:
        kw['units'] = c['units']
    ang = [a * c['k'] for a in c['ang'][:len(order)]]
    rad = ang if c['units'] == 'rad' else [a * PI / 180 for a in ang]
    if c['scalar']:
        arg, rad = ang[0], rad[:1]
    else:
        arg = {'list': list, 'tuple': tuple, 'array': np.array}[c['form']](ang)
    want = np.eye(3)
    for t, x in zip(rad, order):
        u = {'x': [1, 0, 0], 'y': [0, 1, 0], 'z': [0, 0, 1]}[x]
        want = g.rot([math.cos(t / 2)] + [math.sin(t / 2) * k for k in u]).dot(want)
    close(call(euler, arg, **kw), want, 1e-12 * (1 + max(abs(t) for t in rad)), 'euler', ndarray=True)
    label('%d axes, %s' % (len(rad), c['units']))
    nontrivial(len(rad) > 1 and any(abs(math.sin(2 * t)) > 1e-6 for t in rad))


@sub('C06', g.rec(vs=st.lists(axis_angle([0.0, 0.5, 1.0, 2.0, 3.0, PI / 2, 4.0]), min_size=1, max_size=3), col=st.booleans()), 600, purity=False)
def differentiable(c):
    """The chumpy term: values and derivatives, also after the vector has been replaced."""
    x = ch.array(np.array([0.1, 0.2, 0.3]).reshape((3, 1) if c['col'] else (3,)))
    R = Rodrigues(rt=x)
    for a, t in c['vs']:
        v = np.array([t * k for k in a])
        if abs(t - PI) < 1e-3 or abs(t) < 1e-4:
            label('skipped')
            continue
        x[:] = v.reshape(x.shape)
        close(np.asarray(R.r).reshape(3, 3), ref(v), 1e-9, 'Rodrigues.r')
        J = R.dr_wrt(x)
        J = np.asarray(J.todense() if hasattr(J, 'todense') else J)
        J = num_array(J, 'Rodrigues.dr_wrt', (9, 3))
        h = 1e-5
        for i in range(3):
            e = np.zeros(3)
            e[i] = h
            fd = (ref(v + e) - ref(v - e)) / (2 * h)
            close(J[:, i].reshape(3, 3), fd, 1e-6, 'Rodrigues.dr_wrt, component %d' % i)
        nontrivial()
