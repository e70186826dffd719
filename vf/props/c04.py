"""C04 Composite transforms apply in order, by range, and invert. C05 uses the same operations."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import env
env.load_chumpy()
from blmath.geometry.transform.composite import CompositeTransform
from .. import gen as g
from ..core import A, call, close, equal, fail, label, nontrivial, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/transform/composite.py', 'blmath/geometry/transform/coordinate_manager.py', 'blmath/geometry/transform/rotation.py'])
RULE = 'Histories of up to 12 appends (a third of the cases with rejected ones between them) and queries over ranges, in both directions; non-trivial when at least two transforms which do not commute are composed.'
ASSUMPTIONS = ['lengths of the units used by convert_units are those of the physical definitions in this module',
               'matrices for rotate are rotations; near the angles 0 and pi rodrigues is accurate to about 1e-5, and so is the tolerance there']

METERS = {'m': 1.0, 'meter': 1.0, 'meters': 1.0, 'mm': 1e-3, 'millimeter': 1e-3, 'cm': 1e-2, 'centimeters': 1e-2, 'in': 0.0254, 'inches': 0.0254, 'ft': 0.3048, 'feet': 0.3048,
          'fathoms': 1.8288, 'cubits': 0.4572}


def invertible(draw):
    k = draw(st.integers(0, 7))
    if k == 0:
        return draw(st.sampled_from([[[1.0, 1.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 2.0]], [[2.0, 0.0, 1.0], [1.0, 1.0, 0.0], [0.0, 3.0, 1.0]], [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]],
                                     [[1.0, 2.0, 0.0], [0.0, 1.0, 3.0], [0.0, 0.0, 1.0]]]))
    if k == 1:
        # nearly a rotation, or the identity
        e = draw(st.sampled_from(g.NEAR)) * np.array(draw(g.nums(9, mode='int'))).reshape(3, 3) / 8
        return (g.rot(draw(st.one_of(st.just([1.0, 0.0, 0.0, 0.0]), g.quaternion()))).dot(np.eye(3) + e) + 0.0).tolist()
    q1, q2 = draw(g.quaternion()), draw(g.quaternion())
    s = draw(st.lists(st.sampled_from([1.0, 2.0, 0.5, -1.0, 3.0, 0.25, 1.5]), min_size=3, max_size=3))
    m = g.rot(q1).dot(np.diag(s)).dot(g.rot(q2))
    return (m + 0.0).tolist()


def reverse_for(draw, m, other=None):
    """A reverse which is not the inverse, and mostly looks like something else."""
    k = draw(st.integers(0, 9))
    if k == 0:
        r = m
    elif k == 1:
        r = np.array(m)
        r[:3] += draw(st.sampled_from([1e-9, 1e-7, 1e-3])) * np.eye(len(m))[:3]
    elif k == 2:
        r = np.eye(len(m))
    elif k == 3:
        r = np.array(m)
        r[:3, :3] = r[:3, :3].T
    elif k == 4:
        r = np.linalg.inv(m)
    elif k == 5:
        # nearly the inverse
        r = np.linalg.inv(m)
        r[:3, :3] *= 1 + draw(st.sampled_from([1e-9, 1e-7, 1e-5, 1e-3]))
    else:
        r = other if other is not None else np.array(invertible(draw))
    return (r + 0.0).tolist()


@st.composite
def op(draw, bad=True):
    k = draw(st.integers(0, 10 if bad else 8))
    if k == 0:
        return ['scale', draw(st.sampled_from([2, 0.5, 3.0, 10, 0.1, 1.0, 0.7, 100.0] + [abs(x) for x in D.values if 1e-2 < abs(x) < 1e3]))]
    if k in (1, 2):
        return ['translate', draw(g.nums(3, consts=D)), draw(st.sampled_from(['array', 'list', 'tuple', 'int']))]
    if k == 3:
        up, look = draw(g.direction()), draw(g.direction())
        x = np.cross(up, look)
        if np.linalg.norm(x) < 1e-3 * np.linalg.norm(up) * np.linalg.norm(look):
            look = [up[1] + 1.0, -up[0], up[2] + 2.0]
            if np.linalg.norm(np.cross(up, look)) < 1e-3 * np.linalg.norm(up) * np.linalg.norm(look):
                up, look = [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]
        return ['reorient', up, look]
    if k == 4:
        return ['rotate_vec', draw(g.direction(scales=(1.0, 0.1, 1.5707963267948966, 0.5, 0.01))), draw(st.sampled_from([[3], [3, 1], [1, 3], 'list']))]
    if k == 5:
        return ['rotate_mat', draw(g.quaternion())]
    if k == 6:
        names = sorted(METERS)
        return ['convert_units', draw(st.sampled_from(names)), draw(st.sampled_from(names))]
    if k == 7:
        m = invertible(draw)
        r = draw(st.integers(0, 2))
        return ['append3', m, None if r < 2 else reverse_for(draw, np.array(m))]
    if k == 8:
        m = np.eye(4)
        m[:3, :3] = invertible(draw)
        m[:3, 3] = draw(g.nums(3))
        r = draw(st.integers(0, 2))
        rev = None
        if r == 2:
            rv = np.eye(4)
            rv[:3, :3] = invertible(draw)
            rv[:3, 3] = draw(g.nums(3))
            rev = reverse_for(draw, m, rv)
        return ['append4', (m + 0.0).tolist(), rev]
    return ['bad', draw(st.integers(0, 8))]


def unit(v):
    v = np.array(v, dtype=float)
    return v / np.linalg.norm(v)


def model_of(o):
    """(forward, reverse, tolerance) of an operation, computed independently."""
    f, loose = np.eye(4), 0.0
    kind = o[0]
    if kind == 'scale':
        f[:3, :3] *= o[1]
        r = np.eye(4)
        r[:3, :3] /= o[1]
        return f, r, loose
    if kind == 'translate':
        v = np.array([float(int(x)) for x in o[1]] if o[2] == 'int' else o[1])
        f[:3, 3] = v
        r = np.eye(4)
        r[:3, 3] = -v
        return f, r, loose
    if kind == 'reorient':
        y = unit(o[1])
        x = unit(np.cross(y, np.array(o[2])))
        f[:3, :3] = [x, y, np.cross(x, y)]
    elif kind == 'rotate_vec':
        v = np.array(o[1])
        t = np.linalg.norm(v)
        u = v / t
        f[:3, :3] = g.rot([math.cos(t / 2)] + [math.sin(t / 2) * c for c in u])
    elif kind == 'rotate_mat':
        f[:3, :3] = g.rot(o[1])
        q = np.array(o[1])
        sin = 2 * abs(q[0]) * np.linalg.norm(q[1:]) / q.dot(q)
        loose = 3e-5 if sin < 3e-5 else (3e-14 / sin)
    elif kind == 'convert_units':
        k = METERS[o[1]] / METERS[o[2]]
        f[:3, :3] *= k
    elif kind == 'append3':
        f[:3, :3] = o[1]
        if o[2] is not None:
            r = np.eye(4)
            r[:3, :3] = o[2]
            return f, r, loose
    elif kind == 'append4':
        f = np.array(o[1])
        if o[2] is not None:
            return f, np.array(o[2]), loose
    lin = np.linalg.inv(f[:3, :3])
    r = np.eye(4)
    r[:3, :3] = lin
    r[:3, 3] = -lin.dot(f[:3, 3])
    return f, r, loose


def perform(t, o):
    """Do the operation on a CompositeTransform or CoordinateManager; returns what it returns. Half of them by keywords."""
    kind = o[0]
    kw = len(repr(o)) % 2 == 1
    if kind == 'scale':
        return t.scale(factor=o[1]) if kw else t.scale(o[1])
    if kind == 'translate':
        v = o[1]
        v = [int(x) for x in v] if o[2] == 'int' else tuple(v) if o[2] == 'tuple' else np.array(v) if o[2] == 'array' else v
        return t.translate(vector=v) if kw else t.translate(v)
    if kind == 'reorient':
        return t.reorient(up=o[1], look=o[2]) if kw else t.reorient(o[1], o[2])
    if kind == 'rotate_vec':
        v = o[1] if o[2] == 'list' else np.array(o[1]).reshape(o[2])
        return t.rotate(rot=v) if kw else t.rotate(v)
    if kind == 'rotate_mat':
        return t.rotate(g.rot(o[1]))
    if kind == 'convert_units':
        return t.convert_units(from_units=o[1], to_units=o[2]) if kw else t.convert_units(o[1], o[2])
    if kind in ('append3', 'append4'):
        f = t.append_transform3 if kind == 'append3' else t.append_transform4
        m, r = np.array(o[1]), None if o[2] is None else np.array(o[2])
        if np.all(m == np.round(m)) and m[0, 0] != 1:
            m = m.astype(np.int64)
        if kw:
            return f(forward=m, reverse=r)
        return f(m) if r is None else f(m, r)
    raise RuntimeError(o)


def perform_bad(t, k):
    n = k
    if n == 0:
        raises(ValueError, t.scale, 0)
    elif n == 1:
        raises(ValueError, t.scale, -2.5)
    elif n == 2:
        raises(ValueError, t.convert_units, 'cm', 'kg')
    elif n == 3:
        raises((KeyError, ValueError), t.convert_units, 'cm', 'parsecs')
    elif n == 4:
        raises(ValueError, t.convert_units, 'kg', 'g')
    elif n == 5:
        raises(ValueError, t.reorient, [0, 0, 0], [0, 0, 1])
    elif n == 6:
        raises(ValueError, t.reorient, [1.0, 2.0, 2.0], [-2.0, -4.0, -4.0])
    elif n == 7:
        raises(ValueError, t.append_transform3, np.eye(4))
    elif n == 8:
        raises(ValueError, t.reorient, [0, 2.0, 0], [0, 0, 0])


def apply_chain(mats, points):
    """The points after each matrix in turn, with a bound of the rounding error."""
    p = np.hstack([np.array(points, dtype=float).reshape(-1, 3), np.ones((len(points), 1))])
    b = np.abs(p)
    for m in mats:
        p = p.dot(np.array(m).T)
        b = b.dot(np.abs(m).T)
    return p[:, :3], b[:, :3]


def prodabs(mats):
    out = np.eye(4)
    for m in mats:
        out = np.abs(m).dot(out)
    return out


@sub('C04', g.rec(ops=st.lists(op(), min_size=0, max_size=12), pts=g.points(1, 30, consts=D),
                  ranges=st.lists(st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list), min_size=1, max_size=4), lay=g.layout), 4000)
@sub('C04', g.rec(ops=st.lists(op(), min_size=24, max_size=80), pts=g.points(1, 8, consts=D), ranges=st.lists(st.tuples(st.integers(0, 80), st.integers(0, 80)).map(list), min_size=1, max_size=4), lay=g.layout), 60, name='long_chains', purity=False, shards=2, thorough=10)
@sub('C04', g.rec(ops=st.lists(op(), min_size=1, max_size=4), pts=g.points(300, 6000, consts=D), ranges=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), min_size=1, max_size=2), lay=g.layout), 16, name='many_points', purity=False, shards=2, thorough=10)
def history(c):
    t = CompositeTransform()
    model = []
    pts = c['pts']
    for o in c['ops']:
        if o[0] == 'bad':
            perform_bad(t, o[1])
            continue
        ret = perform(t, o)
        if o[0] != 'convert_units':
            equal(ret, len(model), 'the index returned by %s' % o[0])
        model.append(model_of(o))
        label(o[0])
    n = len(model)
    ranges = [None] + [sorted(x % (n + 1) for x in r) for r in c['ranges']]
    for r in ranges:
        i, j = (0, n) if r is None else r
        sel = model[i:j]
        loose = 1e-12 + sum(m[2] for m in sel) * 4
        fr = None if r is None else (i, j)
        for reverse in (False, True):
            chain = [m[1] for m in reversed(sel)] if reverse else [m[0] for m in sel]
            # inverses computed from the matrix add its condition, at most 1e3 each by construction
            tol = loose * (1 if not reverse else 1e2)
            want, bound = apply_chain(chain, pts)
            kw = {'from_range': fr, 'reverse': reverse}
            got = call(t, A(pts, c['lay']), **kw)
            close(got, want, tol * (bound + bound.max()), 'transformed points, %s' % kw, ndarray=True)
            m = call(t.matrix_for, **kw)
            wm = np.eye(4)
            for x in chain:
                wm = x.dot(wm)
            pb = prodabs(chain)
            close(m, wm, tol * (pb + pb.max()), 'matrix_for, %s' % kw, ndarray=True)
        label('range %s' % ('none' if r is None else 'empty' if i == j else 'one' if j - i == 1 else 'more'))
    # forward and back
    if not any(o[0] in ('append3', 'append4') and o[2] is not None for o in c['ops']):
        f = call(t, A(pts))
        back = call(t, np.array(f), reverse=True)
        mats = [m[0] for m in model] + [m[1] for m in reversed(model)]
        _, bound = apply_chain(mats, pts)
        close(back, np.array(pts), (1e-10 + sum(m[2] for m in model) * 4) * (bound + bound.max()), 'forward and back')
    # defaults
    close(call(t, A(pts)), call(t, A(pts), from_range=None, reverse=False), 0, 'default arguments')
    close(call(t.matrix_for), call(t.matrix_for, from_range=None, reverse=False), 0, 'default arguments of matrix_for')
    i, j = ranges[-1]
    close(call(t, A(pts), (i, j)), call(t, A(pts), from_range=(i, j), reverse=False), 0, 'default reverse')
    close(call(t.matrix_for, (i, j)), call(t.matrix_for, from_range=(i, j), reverse=False), 0, 'default reverse of matrix_for')
    close(call(t, A(pts), (i, j), True), call(t, A(pts), from_range=(i, j), reverse=True), 0, 'reverse by position')
    # a range need not be a tuple
    close(call(t.matrix_for, [i, j]), call(t.matrix_for, (i, j)), 0, 'a range given as a list')
    if i < j:
        backward = [j, i]
        try:
            want = t.matrix_for((j, i))
        except Exception:
            want = None
        if want is not None:
            close(call(t.matrix_for, backward), want, 0, 'a range given as a list, which ends before it begins')
    nontrivial(n >= 2 and any(np.abs(a[0].dot(b[0]) - b[0].dot(a[0])).max() > 1e-6 for a, b in zip(model, model[1:])))


@sub('C04', g.rec(ops=st.lists(op(bad=False), min_size=1, max_size=6), pts=g.points(1, 10), at=st.integers(0, 6)), 800)
def queries_do_not_change(c):
    """Applying, also between appends, leaves the composite as it was, and later appends do not change earlier ranges."""
    t = CompositeTransform()
    seen = []
    for i, o in enumerate(c['ops']):
        perform(t, o)
        # a range which ends beyond the last transform selects those which are there
        for reverse in (False, True):
            for k in (0, min(i, c['at'])):
                a, b = call(t.matrix_for, (k, i + 3), reverse), call(t.matrix_for, (k, i + 1), reverse)
                close(a, b, 1e-12 * (1 + np.abs(b).max()), 'the range %r of %d transforms, reverse %s' % ((k, i + 3), i + 1, reverse))
        if i % 2 == c['at'] % 2:
            seen.append((i + 1, np.array(call(t, A(c['pts']))), np.array(call(t, A(c['pts']), reverse=True)), np.array(call(t.matrix_for))))
    for n, f, r, m in seen:
        close(call(t, A(c['pts']), from_range=(0, n)), f, 1e-12 * (1 + np.abs(f).max()), 'the first %d transforms, later' % n)
        close(call(t, A(c['pts']), from_range=(0, n), reverse=True), r, 1e-12 * (1 + np.abs(r).max()), 'the first %d transforms reversed, later' % n)
        close(call(t.matrix_for, (0, n)), m, 1e-12 * (1 + np.abs(m).max()), 'the matrix of the first %d transforms, later' % n)
    nontrivial(len(seen) > 1)
