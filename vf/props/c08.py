"""C08 Rigid alignment recovers the motion and is the best proper rotation."""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry.transform import find_rigid_rotation, find_rigid_transform
from .. import gen as g
from ..core import A, call, close, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/transform/rigid_transform.py'])
RULE = 'Point sets of rank 0 to 3 (1 to 200 points), moved by a rotation and translation, with and without noise; non-trivial when the rotation is not one of the cube and the points are not all equal.'
ASSUMPTIONS = ['point sets smaller than 1e-5 of their distance from the origin are left out of the exact recovery: the rounding of the copy is noise to them',
               'three points given by rows are indistinguishable from three by columns, and are read as columns',
               'noisy point sets whose best orthogonal map is ambiguous (equal smallest singular values, or one close to zero) are left out']


def proper(R, what, tol=1e-9):
    R = num_array(R, what, (3, 3))
    close(R.dot(R.T), np.eye(3), tol, what + ': R R^T')
    close(np.linalg.det(R), 1.0, tol, what + ': determinant')
    return R


@st.composite
def cloud(draw, lo=1, hi=200):
    kind = draw(st.sampled_from(['any', 'any', 'any', 'plane', 'plane', 'line', 'symmetric', 'triangle']))
    if kind == 'triangle':
        p = np.array(draw(g.points(3, 3, n=3)))
    elif kind == 'symmetric':
        p = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], dtype=float) * draw(st.sampled_from([1.0, 2.5]))
        p = p[:draw(st.integers(2, 6))]
    else:
        p = np.array(draw(g.points(lo, hi, consts=D, scales=[1.0, 0.01, 100.0, 3.3])))
        if kind == 'plane':
            p[:, 2] = 0
        if kind == 'line':
            p[:, 1:] = 0
        if kind in ('plane', 'line'):
            p = p.dot(g.rot(draw(g.quaternion())).T) + np.array(draw(g.nums(3)))
    return (p + 0.0).tolist()


near_identity = st.tuples(st.sampled_from([1e-4, 1e-6, 1e-7, 3e-8, 1e-9, 1e-10]), g.nums(3, mode='int')).map(lambda x: [1.0] + [x[0] * y for y in x[1]])


def give(p, rows, lay):
    if lay in ('i1', 'i2', 'i4', 'I4') and np.square(p).sum() > 127:
        lay = 'i8' # so that no sum of products overflows
    return A(p if rows else np.array(p).T, lay)


@sub('C08', g.rec(p=cloud(300, 10001), q=g.quaternion(), t=g.nums(3), ts=st.sampled_from([0.0, 1.0, 100.0]), rows=st.booleans(), rows2=st.booleans(), lay=g.layout), 24, name='recover_many', purity=False, shards=2, thorough=10)
@sub('C08', g.rec(p=cloud(), q=st.one_of(g.quaternion(), g.quaternion(), near_identity), t=g.nums(3), ts=st.sampled_from([0.0, 0.0, 1.0, 100.0]), rows=st.booleans(), rows2=st.booleans(), lay=g.layout, k=st.sampled_from([1.0] * 8 + [1e-8, 1e-4, 1e5, 1e8, 1e12])), 4000)
def recover(c):
    k = c.get('k', 1.0)
    p = np.array(c['p']) * k
    n = len(p)
    R0, t0 = g.rot(c['q']), np.array(c['t']) * c['ts'] * k
    b = p.dot(R0.T) + t0
    if 0 < np.ptp(p, axis=0).max() < 1e-5 * max(np.abs(p).max(), np.abs(b).max()):
        label('lost in rounding')
        return
    rows = c['rows'] and n != 3
    rows2 = c['rows2'] and n != 3
    r = call(find_rigid_transform, give(p.tolist(), rows, c['lay']), give(b.tolist(), rows2, c['lay']))
    require(isinstance(r, tuple) and len(r) == 2, 'find_rigid_transform should return a pair')
    R = proper(r[0], 'the rotation of find_rigid_transform')
    T = num_array(r[1], 'the translation of find_rigid_transform', (3, 1))
    size = np.abs(p).max() + np.abs(b).max() + 1e-300
    s = np.linalg.svd(p - p.mean(axis=0), compute_uv=False)
    s = np.concatenate([s, [0, 0, 0]])[:3]
    rank = int(np.sum(s > 1e-3 * size)) if size > 0 else 0
    if rank < int(np.sum(s > 1e-11 * size)):
        label('nearly degenerate')
        tol = 1e-6
    else:
        tol = 1e-9
    close(R.dot(p.T) + T, b.T, tol * size, 'R a + T')
    if rank >= 2 and tol == 1e-9:
        # what the rounding of the points turns them by
        tol = 1e-13 + 1e-14 * size * np.sqrt(n) / s[1]
        close(R, R0, tol, 'the recovered rotation')
        close(T[:, 0], t0, 10 * tol * size, 'the recovered translation')
    label('rank %d' % rank)
    label('rows' if rows else 'columns')
    nontrivial(rank >= 1 and np.abs(R0 - np.round(R0)).max() > 1e-6)


def best(c):
    """The best rotation for the cross covariance c = sum a b^T, whether a reflection is better, and how clear that is."""
    u, s, vt = np.linalg.svd(c)
    d = np.sign(np.linalg.det(vt.T.dot(u.T)))
    R = vt.T.dot(np.diag([1, 1, d])).dot(u.T)
    return R, d, s


@sub('C08', g.rec(p=g.points(100, 5000, scales=[1.0, 0.1, 20.0]), q=g.quaternion(), t=g.nums(3), noise=g.nums(180, mode='gen'), e=st.sampled_from([1e-3, 1e-2, 0.1, 1.0, 10.0]), rows=st.booleans(), flip=st.sampled_from([False, False, True]), twice=st.sampled_from([0, 0, 1, -1])), 40, name='noisy_many', purity=False, shards=2, thorough=10)
@sub('C08', g.rec(p=g.points(3, 60, scales=[1.0, 0.1, 20.0]), q=g.quaternion(), t=g.nums(3), noise=g.nums(180, mode='gen'), e=st.sampled_from([1e-3, 1e-2, 0.1, 1.0, 10.0]), rows=st.booleans(), flip=st.sampled_from([False, False, True]), twice=st.sampled_from([0, 0, 0, 1, 2, 5, -1, -1])), 2500)
def noisy(c):
    p = np.array(c['p'])
    n = len(p)
    b = p.dot(g.rot(c['q']).T) + np.array(c['t']) + c['e'] * np.resize(c['noise'], (n, 3)) / 10
    if c['flip']:
        b[:, 0] = -b[:, 0]
    if c['twice']:
        # pairs of points which are given more than once count so
        again = np.concatenate([np.arange(n), [0] if c['twice'] < 0 else np.repeat(np.arange(0, n, 3), c['twice'])]).astype(int)
        p, b = p[again], b[again]
    pc, bc = p - p.mean(axis=0), b - b.mean(axis=0)
    C = pc.T.dot(bc)
    R0, d, s = best(C)
    if s[0] == 0 or s[2] < 1e-5 * s[0] or (d < 0 and s[1] - s[2] < 1e-5 * s[0]):
        label('ambiguous')
        return
    if d < 0:
        raises(ValueError, find_rigid_transform, p.T.copy(), b.T.copy())
        label('reflection')
        nontrivial()
        return
    rows = c['rows'] and len(p) != 3
    r = call(find_rigid_transform, p.copy() if rows else p.T.copy(), b.T.copy())
    R = proper(r[0], 'the rotation of find_rigid_transform')
    T = num_array(r[1], 'the translation', (3, 1))
    tol = 1e-14 * s[0] / s[2] * 10 + 1e-10
    close(R, R0, tol, 'the rotation with the least squared error')
    close(T[:, 0], b.mean(axis=0) - R0.dot(p.mean(axis=0)), (tol + 1e-13) * (1 + np.abs(p).max() * 3 + np.abs(b).max()), 'the translation with the least squared error')
    label('noisy')
    nontrivial()


@sub('C08', g.rec(p=cloud(101, 8000), q=g.quaternion(), noise=g.nums(300, mode='gen'), e=st.sampled_from([0.0, 0.0, 1e-3, 0.1, 3.0]), k=st.sampled_from([1.0, 2.0, 0.25, 17.0]),
                  scaling=st.sampled_from([True, False, None]), flip=st.sampled_from([False, False, False, True]), lay=g.layout), 80, name='rotation_many', purity=False, shards=2, thorough=10)
@sub('C08', g.rec(p=cloud(2, 100), q=g.quaternion(), noise=g.nums(300, mode='gen'), e=st.sampled_from([0.0, 0.0, 1e-3, 0.1, 3.0]), k=st.sampled_from([1.0, 2.0, 0.25, 17.0]),
                  scaling=st.sampled_from([True, False, None]), flip=st.sampled_from([False, False, False, True]), lay=g.layout), 3500)
def rotation(c):
    p = np.array(c['p'])
    n = len(p)
    b = (p.dot(g.rot(c['q']).T) + c['e'] * np.resize(c['noise'], (n, 3)) / 10) * c['k']
    if c['flip']:
        b[:, 1] = -b[:, 1]
    size = np.linalg.norm(p)
    if size < 1e-3 or np.linalg.norm(b) < 1e-3:
        return
    C = p.T.dot(b)
    R0, d, s = best(C)
    if s[0] < 1e-9 * size * np.linalg.norm(b):
        label('ambiguous')
        return
    kw = {} if c['scaling'] is None else {'allow_scaling': c['scaling']}
    R = call(find_rigid_rotation, give(c['p'], False, c['lay']), give(b.tolist(), False, c['lay']), **kw)
    R = num_array(R, 'find_rigid_rotation', (3, 3))
    f = np.linalg.norm(b) / size if c['scaling'] else 1.0
    R = proper(R / f, 'find_rigid_rotation (without its scale)')
    # optimal: the trace of R C is the largest any proper rotation can reach
    want = s[0] + s[1] + d * s[2]
    close(np.trace(R.dot(C)), want, 1e-9 * s[0], 'the agreement of the rotated points with b')
    if s[1] > 1e-4 * s[0] and (s[1] + d * s[2]) > 1e-4 * s[0]:
        close(R, R0, 1e-8, 'the best rotation')
        label('unique')
        nontrivial(np.abs(R0 - np.round(R0)).max() > 1e-6)
    label('scaled' if c['scaling'] else 'not scaled')
    label('reflection' if d < 0 and s[2] > 1e-6 * s[0] else 'rotation')


@sub('C08', g.rec(a=g.direction(consts=D), q=g.quaternion(), b=g.direction(), k=st.sampled_from([1.0, 3.0, 0.2]), own=st.booleans(), scaling=st.booleans(), shape=st.just([3, 1])), 1500)
def single_vector(c):
    a = np.array(c['a'])
    b = g.rot(c['q']).dot(a) * c['k'] if c['own'] else np.array(c['b'])
    la, lb = np.linalg.norm(a), np.linalg.norm(b)
    sin, cos = np.linalg.norm(np.cross(a, b)) / la / lb, a.dot(b) / la / lb
    label('opposite' if cos < 0 and sin < 1e-4 else 'parallel' if sin < 1e-4 else 'generic')
    R = call(find_rigid_rotation, a.reshape(c['shape']), b.reshape(c['shape']), allow_scaling=c['scaling'])
    f = lb / la if c['scaling'] else 1.0
    R = num_array(R, 'find_rigid_rotation', (3, 3))
    close(R.dot(a) / f / la, b / lb, 1e-9, 'the direction of the turned vector')
    proper(R / f, 'find_rigid_rotation (without its scale)')
    if c['scaling']:
        close(R.dot(a), b, 1e-9 * lb, 'the turned and scaled vector')
    nontrivial()
