"""C16 Convexified curves are the convex hull of the planar curve."""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Polyline
from blmath.geometry.convexify import convexify_planar_curve
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/convexify.py', 'blmath/geometry/transform/rotation.py'])
RULE = 'Planar curves of 3 to 120 points (grids with many collinear and repeated points, circles, stars, any), in any position and orientation, with and without a given normal, and almost planar ones; non-trivial when some but not all of at least five points are on the hull.'
ASSUMPTIONS = ['points within rounding of the hull boundary (1e-9 of the size) may be vertices or not', 'curves thinner than 1e-3 of their length are left out']


@st.composite
def curve(draw, lo=3, hi=120):
    kind = draw(st.sampled_from(['any', 'any', 'grid', 'circle', 'star', 'triangle']))
    n = draw(g.size(lo, hi, D))
    if kind in ('any', 'grid'):
        uv = np.array(draw(g.nums(2 * n, mode='int' if kind == 'grid' else None, consts=D))).reshape(n, 2)
    elif kind == 'triangle':
        uv = np.array(draw(g.nums(6, mode='int'))).reshape(3, 2)
        k = np.array(list(g.noise(draw, 2 * n))).reshape(n, 2) / 256.0
        k[k.sum(axis=1) > 1] = 1 - k[k.sum(axis=1) > 1]
        uv = np.vstack([uv, uv[0] + k[:, :1] * (uv[1] - uv[0]) + k[:, 1:] * (uv[2] - uv[0])])[:n]
    else:
        t = 2 * np.pi * np.arange(n) / n
        r = 5.0 if kind == 'circle' else 5.0 * (1 + 0.8 * (np.arange(n) % 2))
        uv = np.column_stack([r * np.cos(t), r * np.sin(t)])
        k = draw(st.sampled_from([0, 0, 0, 7, 11, -1]))
        if k:
            # not in order around
            uv = uv[np.argsort(np.arange(n) * 7919 % 101 if k == 11 else np.arange(n) % 7, kind='stable')] if k > 0 else uv[::-1]
    if draw(st.integers(0, 3)) == 0:
        uv = np.vstack([uv, uv[:draw(st.integers(1, 3))]])
    if draw(st.integers(0, 4)) == 0:
        # some vertices repeat at once
        k = np.ones(len(uv), dtype=int)
        for i in draw(st.lists(st.sampled_from([0, 0, len(uv) - 1, len(uv) // 2, 1]), min_size=1, max_size=3)):
            k[i] += 1
        uv = np.repeat(uv, k, axis=0)
    q = draw(st.one_of(st.just([1.0, 0.0, 0.0, 0.0]), st.just([1.0, 1.0, 0.0, 0.0]), st.just([1.0, 0.0, 0.0, 1.0]), st.just([1.0, 0.0, 1.0, 0.0]), st.just([1.0, 1.0, 1.0, 1.0]), g.quaternion(), g.quaternion()))
    off = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-3]))
    w = off / 10 * np.array(draw(g.nums(len(uv), mode='gen'))) if off else np.zeros(len(uv))
    R = g.rot(q)
    if draw(st.integers(0, 3)) == 0:
        # long along a diagonal, and thin along an axis, exactly
        h = draw(st.sampled_from([1.0, 2.0, -1.0]))
        d = np.array([1.0, h, 0.0]) / np.hypot(1.0, h)
        R = np.array([d, [0.0, 0.0, 1.0], np.cross(d, [0.0, 0.0, 1.0])]).T[draw(st.permutations([0, 1, 2]))]
        uv = uv * [1.0, draw(st.sampled_from([1.0, 0.1, 0.05]))]
    p = np.column_stack([uv, w]).dot(R.T)
    t = np.array(draw(g.nums(3))) * draw(st.sampled_from([0.0, 1.0, 20.0]))
    k = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    t = t * max(1e-3, min(1.0, float(np.abs(uv).max())))
    p = (p + t) * k
    if draw(st.integers(0, 4)) == 0:
        p = p - p.mean(axis=0)
        if draw(st.booleans()):
            # almost centred
            e = np.array(draw(st.sampled_from([[0.0, 0.0, 1.0], [0.6, 0.0, 0.8], [0.0, -0.6, -0.8]]))).dot(R.T)
            p = p + draw(st.sampled_from([1e-6, 5e-6, 9e-6, 2e-5])) * e
    return {'v': (p + 0.0).tolist(), 'n': (R[:, 2] * draw(st.sampled_from([1.0, -1.0])) + 0.0).tolist(), 'off': off * k}


def turn(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull(uv):
    """Convex hull by Andrew's monotone chain: counterclockwise."""
    pts = sorted(set(map(tuple, uv.tolist())))
    out = []
    for seq in (pts, pts[::-1]):
        part = []
        for p in seq:
            while len(part) > 1 and turn(part[-2], part[-1], p) <= 0:
                part.pop()
            part.append(p)
        out += part[:-1]
    return np.array(out)


def depth(uv, h):
    """How far inside the hull each point is."""
    e = np.roll(h, -1, axis=0) - h
    m = np.linalg.norm(e, axis=1)
    ok = m > 0
    e, h, m = e[ok], h[ok], m[ok]
    return np.min(((uv[:, None, 1] - h[None, :, 1]) * e[None, :, 0] - (uv[:, None, 0] - h[None, :, 0]) * e[None, :, 1]) / m, axis=1)


def check_hull(idx, uv, rows, tol, what):
    """idx: the chosen points, in order. uv: all points, in the plane. rows: what tells points apart."""
    h = hull(uv)
    require(len(set(idx)) == len(idx), '%s: an index occurs twice: %r', what, idx)
    d = depth(uv, h)
    for i in idx:
        require(d[i] <= tol, '%s: point %d is inside the hull, by %r', what, i, d[i])
    chosen = uv[idx]
    # every extreme point is there, once
    for p in h:
        near = np.flatnonzero(np.abs(chosen - p).max(axis=1) <= tol)
        if len(near) != 1:
            # it may have lost its place to another point within rounding of a straight angle
            rest = hull(np.array([q for q in h if not np.array_equal(q, p)]))
            if len(rest) >= 3 and depth(p[None], rest)[0] > -tol:
                continue
            require(len(near) > 0, '%s: the extreme point %r is missing', what, p.tolist())
            alike = [rows[idx[j]] for j in near]
            require(len(set(map(tuple, alike))) == len(alike), '%s: the extreme point %r occurs %d times', what, p.tolist(), len(near))
    # the polygon goes around the hull once
    a = 0.5 * sum(turn(chosen[0], chosen[i], chosen[i + 1]) for i in range(1, len(chosen) - 1))
    want = 0.5 * sum(turn(h[0], h[i], h[i + 1]) for i in range(1, len(h) - 1))
    size = np.abs(h - h.mean(axis=0)).max()
    close(abs(a), want, 10 * tol * size * len(h), '%s: the area of the polygon' % what)
    c = chosen if a > 0 else chosen[::-1]
    per = np.linalg.norm(np.roll(c, -1, axis=0) - c, axis=1).sum()
    close(per, np.linalg.norm(np.roll(h, -1, axis=0) - h, axis=1).sum(), 10 * tol * (len(c) + len(h)), '%s: the perimeter of the polygon' % what)
    return h


def basis(n):
    u = np.cross(n, [0, 1, 0] if abs(n[0]) > 0.6 else [1, 0, 0])
    u /= np.linalg.norm(u)
    return np.array([u, np.cross(n, u)])


@sub('C16', g.rec(c=curve(300, 1100), flatten=st.booleans(), given=st.booleans(), want=st.booleans(), closed=st.booleans(), lay=g.layout, len=st.sampled_from([1.0, 1.0, 0.01, 1e-4, 0.3, 7.0, 1e6])), 24, name='convexify_many', purity=False, shards=2, thorough=10)
@sub('C16', g.rec(c=curve(), flatten=st.booleans(), given=st.booleans(), want=st.booleans(), closed=st.booleans(), lay=g.layout, len=st.sampled_from([1.0, 1.0, 0.01, 1e-4, 0.3, 7.0, 1e6])), 5000)
def convexify(x):
    c = x['c']
    v = np.array(c['v'])
    centre = v.mean(axis=0)
    size = np.abs(v - centre).max()
    s = np.linalg.svd(v - centre, compute_uv=False)
    if s[1] < 1e-3 * s[0] or s[0] == 0 or max(s[2], c['off']) > 0.02 * s[1]:
        label('too thin')
        return
    where = np.abs(v).max() + size
    n = np.array(c['n'])
    kw = {}
    if x['flatten']:
        kw['flatten'] = True
    if x['given']:
        kw['normal'] = n.copy() if x['flatten'] else n * x['len']
    if x['want']:
        kw['want_vertices'] = True
    line = Polyline(A(c['v'], x['lay']), closed=x['closed'])
    r = call(convexify_planar_curve, line, **kw)
    if x['want']:
        require(isinstance(r, tuple) and len(r) == 2, 'want_vertices should give a pair')
        r, idx = r
        idx = num_array(idx, 'indices')
        require(idx.ndim == 1 and np.all(idx == np.round(idx)) and np.all((idx >= 0) & (idx < len(v))), 'indices: %r', idx.tolist())
        idx = idx.astype(int).tolist()
    require(isinstance(r, Polyline), 'not a Polyline')
    equal(bool(r.closed), x['closed'], 'closed')
    got = num_array(r.v, 'vertices')
    require(got.ndim == 2 and got.shape[1] == 3 and len(got) >= 3, 'vertices: %r', got.tolist())
    if not x['given']:
        n = np.linalg.svd(v - centre)[2][2]
    if not x['flatten']:
        if x['want']:
            exact(got, v[idx], 'the vertices with the returned indices')
        else:
            idx = []
            for p in got:
                m = np.flatnonzero(np.all(v == p, axis=1))
                require(len(m) > 0, 'the vertex %r is no vertex of the curve', p.tolist())
                idx.append(int(m[0]))
        # the projection along a coordinate axis tilts an almost planar curve by its own thickness
        tol = 1e-9 * where + 4 * c['off']
    else:
        flat = v - ((v - centre).dot(n))[:, None] * n
        near_pole = min(np.linalg.norm(n - [0, 1, 0]), np.linalg.norm(n + [0, 1, 0]))
        tol = 1e-9 * where + (4 * c['off'] if not x['given'] else 0) + (2.2 * near_pole * size if near_pole < 2e-5 else 0)
        if x['want']:
            close(got, flat[idx], tol, 'the flattened vertices')
        else:
            idx = []
            for p in got:
                m = np.linalg.norm(flat - p, axis=1)
                require(m.min() <= 2 * tol, 'the vertex %r is no flattened vertex of the curve', p.tolist())
                m[idx] = np.inf     # flattened points may coincide
                require(m.min() <= 2 * tol, 'the vertex %r repeats', p.tolist())
                idx.append(int(np.argmin(m)))
    if tol > (0.02 if c['off'] else 1e-4) * size * s[1] / s[0]:
        label('too small for the tolerance')
        return
    h = check_hull(idx, (v - centre).dot(basis(n).T), [tuple(p) + (i if x['flatten'] else 0,) for i, p in enumerate(v)], tol, 'hull')
    label('%s, %s' % ('flat' if x['flatten'] else 'kept', 'normal given' if x['given'] else 'normal estimated'))
    label('almost planar' if c['off'] else 'planar')
    nontrivial(len(v) >= 5 and len(h) < len(v))


@sub('C16', g.rec(v=st.sampled_from([[], [[0.0, 0.0, 0.0]], [[1.5, -2.0, 3.0]]]), closed=st.booleans(), flatten=st.booleans(), n=st.booleans()), 100, shards=1)
def too_short(c):
    v = np.array(c['v']).reshape(-1, 3)
    kw = {'normal': np.array([0.0, 0.0, 1.0])} if c['n'] else {}
    r = call(convexify_planar_curve, Polyline(v, closed=c['closed']), flatten=c['flatten'], **kw)
    require(isinstance(r, Polyline), 'not a Polyline')
    exact(r.v, v, 'vertices')
    equal(bool(r.closed), c['closed'], 'closed')
    nontrivial()
