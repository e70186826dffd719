"""C20 Barycentric coordinates and surface normals describe the triangle."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from blmath.geometry.barycentric import barycentric_coordinates_of_projection
from blmath.geometry.surface_normals import surface_normal
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/barycentric.py', 'blmath/geometry/surface_normals.py'])
RULE = 'Stacks of 1 to 40 points and triangles, each on a grid or anywhere, at any size and place, some with the point at a vertex or in the plane, and degenerate ones; non-trivial when the triangles are proper and not parallel to a coordinate plane.'
ASSUMPTIONS = ['tolerances grow with the inverse of the sine of the smallest angle; triangles so thin that rounding could change the coordinates by more than 0.01 are only checked to give finite coordinates which sum to one']


@st.composite
def triangles(draw, hi=40, lo=1):
    n = draw(g.size(lo, hi, D))
    t = np.array(draw(g.nums(9 * n, consts=D))).reshape(n, 3, 3)
    p = np.array(draw(g.nums(3 * n, consts=D))).reshape(n, 3)
    how = list(g.noise(draw, n))
    for i, h in enumerate(how):
        h %= 16
        if h == 1:
            p[i] = t[i, i % 3]
        elif h == 2:
            p[i] = (t[i, 0] + t[i, 1]) / 2
        elif h == 3:
            p[i] = t[i, 0] + 2 * (t[i, 1] - t[i, 0]) - 3 * (t[i, 2] - t[i, 0])
        elif h == 4:
            t[i, 2] = t[i, 0] + (i % 4) * (t[i, 1] - t[i, 0])       # degenerate
        elif h == 5:
            t[i, 1] = t[i, 0]
        elif h == 6:
            p[i] = p[i] * 1000
        elif h == 7:
            t[i] *= 1e-3
        elif h == 10:
            # thin, and the point in its plane
            e = [1e-3, 2.0 ** -20, 1e-6, 1e-7, 1e-9, 2.0 ** -30][i % 6]
            t[i, 2] = t[i, 0] + (i % 3) * (t[i, 1] - t[i, 0]) + e * (t[i, 2] - t[i, 0])
            p[i] = t[i, 0] + 0.25 * (t[i, 1] - t[i, 0]) + [0.5, 0.125][i % 2] * (t[i, 2] - t[i, 0])
        elif h in (8, 9):
            # almost at an edge or a vertex
            e = [1e-3, 1e-4, 1e-5, 3e-7, 1e-7, 1e-9][i % 6] * (-1 if h == 8 else 1)
            a, b = [(0.5, 0.5), (e, 0.3), (0.0, 0.7), (1.0, 0.0), (0.0, 0.0), (1.5, 0.0), (1 - e, 0)][i % 7]
            p[i] = t[i, 0] + (a + e) * (t[i, 1] - t[i, 0]) + (b + e) * (t[i, 2] - t[i, 0])
    s = draw(g.scale())
    off = np.array(draw(g.nums(3))) * draw(st.sampled_from([0.0, 0.0, 10.0]))
    return [((p + off) * s + 0.0).tolist(), ((t + off) * s + 0.0).tolist()]


def exact_bary(p, q, u, v):
    """The coordinates by rational numbers, from the normal equations of the projection."""
    F = lambda a: [Fraction(float(x)) for x in a]
    p, q, u, v = F(p), F(q), F(u), F(v)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    w = [a - b for a, b in zip(p, q)]
    uu, uv, vv, wu, wv = dot(u, u), dot(u, v), dot(v, v), dot(w, u), dot(w, v)
    det = uu * vv - uv * uv
    if det == 0:
        return None
    b1 = (wu * vv - wv * uv) / det
    b2 = (wv * uu - wu * uv) / det
    return [float(1 - b1 - b2), float(b1), float(b2)]


@sub('C20', g.rec(t=triangles(2500, 300), lay=g.layout, alone=st.just(False), pick=st.just(0)), 12, name='barycentric_many', purity=False, shards=2, thorough=10)
@sub('C20', g.rec(t=triangles(), lay=g.layout, alone=st.booleans(), pick=st.integers(0, 39)), 4000)
def barycentric(x):
    p, t = np.array(x['t'][0]), np.array(x['t'][1])
    q, u, v = t[:, 0], t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    if x['alone']:
        k = x['pick'] % len(p)
        p, q, u, v = p[k:k + 1], q[k:k + 1], u[k:k + 1], v[k:k + 1]
        b = num_array(call(barycentric_coordinates_of_projection, A(p[0], x['lay']), A(q[0], x['lay']), A(u[0], x['lay']), A(v[0], x['lay'])), 'coordinates')
        require(b.shape in ((3,), (1, 3)), 'coordinates of shape %s', b.shape)
        b = b.reshape(1, 3)
        label('alone')
    else:
        b = num_array(call(barycentric_coordinates_of_projection, A(p, x['lay']), A(q, x['lay']), A(u, x['lay']), A(v, x['lay'])), 'coordinates', (len(p), 3))
        label('stack')
    good = 0
    for i in range(len(p)):
        lu, lv, w = np.linalg.norm(u[i]), np.linalg.norm(v[i]), np.linalg.norm(p[i] - q[i])
        ref = exact_bary(p[i], q[i], u[i], v[i])
        area = np.linalg.norm(np.cross(u[i], v[i]))
        sin = area / (lu * lv) if lu * lv > 0 else 0.0
        if not np.all(np.isfinite(b[i])):
            if ref is None or sin < 1e-7:
                exactly = np.cross(u[i], v[i])
                require(np.any(exactly) and sin < 1e-7, 'row %d: a degenerate triangle has coordinates %r', i, b[i].tolist())
                continue
            fail('row %d: coordinates %r, expected %r', i, b[i].tolist(), ref)
        mag = np.abs(b[i]).max()
        require(abs(b[i].sum() - 1) <= 1e-12 * (1 + mag), 'row %d: coordinates %r sum to %r', i, b[i].tolist(), b[i].sum())
        if ref is None or sin < 1e-11:
            label('degenerate')
            continue
        ratio = max(lu / lv, lv / lu)
        # rounding of the edges' cross product, against the triangle's shape, and for thin ones that of the products with the difference
        tol = 1e-12 * (1 + w / min(lu, lv)) * ratio / sin ** 2
        if tol > 1e-4:
            d = p[i] - q[i]
            inplane = max(np.linalg.norm(np.cross(d, u[i])), np.linalg.norm(np.cross(d, v[i])))
            tol = 1e-13 * ((1 + w / min(lu, lv)) * ratio / sin + inplane / (lu * lv) / sin ** 2)
            if tol > 0.01:
                label('degenerate')
                continue
            label('thin')
            close(b[i], ref, tol, 'row %d: coordinates' % i)
            continue
        close(b[i], ref, tol, 'row %d: coordinates' % i)
        # the projection is the nearest point of the plane
        n = np.cross(u[i], v[i]) / area
        foot = b[i, 0] * q[i] + b[i, 1] * (q[i] + u[i]) + b[i, 2] * (q[i] + v[i])
        want = p[i] - (p[i] - q[i]).dot(n) * n
        close(foot, want, 3 * tol * max(lu, lv, np.abs(q[i]).max()) + 1e-12 * (np.abs(q[i]).max() + w) / sin, 'row %d: projection' % i)
        good += 1
    nontrivial(good > 0 and np.all(np.abs(np.cross(u, v)).max(axis=0) > 0))


@st.composite
def stack(draw, hi=40, lo=1):
    p, t = draw(triangles(hi, lo))
    return t


@sub('C20', g.rec(t=stack(10001, 300), norm=st.sampled_from([None, True, False, False]), pos=st.booleans(), lay=g.layout4, pick=st.just(-1)), 16, name='normals_many', purity=False, shards=2, thorough=10)
@sub('C20', g.rec(t=stack(), norm=st.sampled_from([None, True, False, False]), pos=st.booleans(), lay=g.layout4, pick=st.integers(-40, 39)), 4000)
def normals(x):
    t = np.array(x['t'])
    alone = x['pick'] >= 0
    if alone:
        t = t[x['pick'] % len(t)][None]
    scale = np.abs(t).max()
    u, v = t[:, 1] - t[:, 0], t[:, 2] - t[:, 0]
    n = np.cross(u, v)
    area = np.linalg.norm(n, axis=1)
    m = np.linalg.norm(u, axis=1) * np.linalg.norm(v, axis=1)
    ok = area > 1e-6 * m
    arg = A(t[0] if alone else t, x['lay'])
    unit = x['norm'] is None or x['norm']
    if unit and not np.all(ok):
        if alone or not np.any(ok):
            label('degenerate')
            return
        if x['pick'] % 2:
            # those which have a normal have it whether or not there are others which have none
            with np.errstate(all='ignore'):
                r = surface_normal(arg) if x['norm'] is None else surface_normal(arg, normalize=True)
            r = num_array(r, 'normals of a stack with degenerate triangles', t.shape[::2])[ok]
            close(r, n[ok] / area[ok][:, None], (1e-12 * m[ok] / area[ok])[:, None] + 1e-12, 'normals of a stack with degenerate triangles')
            label('stack with degenerate triangles')
        t, u, v, n, area, m = t[ok], u[ok], v[ok], n[ok], area[ok], m[ok]
        arg = A(t, x['lay'])
    r = call(surface_normal, arg) if x['norm'] is None else call(surface_normal, arg, x['norm']) if x['pos'] else call(surface_normal, arg, normalize=x['norm'])
    r = num_array(r, 'normal', (3,) if alone else (len(t), 3)).reshape(-1, 3)
    if unit:
        close(np.linalg.norm(r, axis=1), np.ones(len(t)), 1e-9, 'length of the normal')
        # perpendicular to both edges, on the side from which the vertices are counterclockwise
        k = 1e-13 * m / area + 1e-13
        close((r * u).sum(axis=1) / np.linalg.norm(u, axis=1), np.zeros(len(t)), 10 * k, 'normal along the first edge')
        close((r * v).sum(axis=1) / np.linalg.norm(v, axis=1), np.zeros(len(t)), 10 * k, 'normal along the second edge')
        require(np.all((r * n).sum(axis=1) > 0.9 * area), 'the normal points to the wrong side: %r', r.tolist())
    else:
        close(r, n, (1e-12 * m)[:, None] + 1e-300, 'cross product')
        close(np.linalg.norm(r, axis=1), area, 1e-12 * m, 'twice the area')
    label(('alone' if alone else 'stack') + (', unit' if unit else ', area'))
    nontrivial(np.all(np.abs(n).max(axis=0) > 0))
