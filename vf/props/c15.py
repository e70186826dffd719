"""C15 Polyline-plane intersection and cutting are exact."""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Plane, Polyline
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub
from .c13 import edges

D = g.Dictionary(['blmath/geometry/primitives/polyline.py', 'blmath/geometry/primitives/plane.py'])
RULE = 'Open and closed polylines with 1 to 60 vertices, whose heights over the plane are planned (few runs in front and behind, zeros, or any), in any position; non-trivial when the curve crosses the plane at least twice, or is cut.'
ASSUMPTIONS = ['which side a vertex is on is exact for planes perpendicular to an axis and multiples of 1/4; for other planes, vertices are at least 1e-9 of the size away',
               'an edge which lies in the plane is left out']


@st.composite
def curve(draw, lo=1, hi=60):
    closed = draw(st.booleans())
    plan = draw(st.sampled_from(['one run', 'one run', 'one run', 'zeros', 'any', 'front']))
    n = draw(g.size(lo, hi, D))
    h = np.abs(np.array(draw(g.nums(n, mode='half')))) + 0.25
    if plan in ('one run', 'zeros'):
        a, b = draw(st.integers(0, n)), draw(st.integers(0, n))
        a, b = min(a, b), max(a, b)
        if not closed and draw(st.booleans()):
            a = 0
        h[a:b] *= -1
        if draw(st.booleans()):
            h = -h
    elif plan == 'any':
        h = np.array(draw(g.nums(n, mode='half')))
    exactly = draw(st.booleans())
    if plan == 'zeros' and exactly:
        for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
            h[i] = 0
        if draw(st.booleans()):
            h[draw(st.sampled_from([0, -1]))] = 0
    if draw(st.integers(0, 2)) == 0:
        # vertices which are only just off the plane
        for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4)):
            h[i] *= draw(st.sampled_from([2.0 ** -20, 2.0 ** -24, 2.0 ** -26, 1e-3, 1e-6, 3e-8] if not exactly else [2.0 ** -20, 2.0 ** -24, 2.0 ** -26, 2.0 ** -30, 2.0 ** -34]))
    uv = np.array(draw(g.nums(2 * n, mode='half' if exactly else None, consts=None if exactly else D))).reshape(n, 2)
    p = np.column_stack([uv, h])
    if exactly:
        axis, s = draw(st.integers(0, 2)), draw(st.sampled_from([1.0, -1.0, 2.0, -0.5]))
        p[:, 2] *= 1 if s > 0 else -1
        p = np.roll(p, axis + 1, axis=1)
        normal = [0.0, 0.0, 0.0]
        normal[axis] = s
        t = np.array(draw(g.nums(3, mode='half')))
        r0 = np.zeros(3)
        r0[[i for i in range(3) if i != axis]] = draw(g.nums(2, mode='half'))
    else:
        R = g.rot(draw(g.quaternion()))
        k = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
        p = p.dot(R.T) * k
        normal = (R[:, 2] * draw(st.sampled_from([1.0, 1.0, 30.0, 0.1]))).tolist()
        t = np.array(draw(g.nums(3))) * k
        r0 = R.dot(np.array(draw(g.nums(2)) + [0.0])) * k
    return {'v': (p + t + 0.0).tolist(), 'r0': (r0 + t + 0.0).tolist(), 'n': [x + 0.0 for x in normal], 'closed': closed, 'exact': exactly}


def setup(c):
    v, r0, n = np.array(c['v']), np.array(c['r0']), np.array(c['n'])
    n = n / np.linalg.norm(n)
    d = (v - r0).dot(n)
    size = np.abs(v).max() + np.abs(r0).max() + 1e-300
    if not c['exact'] and np.abs(d).min() < 1e-9 * size:
        return None
    e = edges(len(v), c['closed']).astype(int)
    s = np.sign(d)
    if any(s[a] == 0 and s[b] == 0 for a, b in e):
        return None
    hits = [i for i, (a, b) in enumerate(e) if not s[a] == s[b]]
    pts = []
    for i in hits:
        a, b = e[i]
        x = d[a] / (d[a] - d[b])
        pts.append(v[a] + x * (v[b] - v[a]))
    # the accuracy where a long edge crosses at a small angle
    tol = [1e-13 * size * (1 + np.linalg.norm(v[e[i][1]] - v[e[i][0]]) / abs(d[e[i][0]] - d[e[i][1]])) for i in hits]
    return v, s, e, hits, np.array(pts).reshape(-1, 3), np.array(tol), size


def unchanged(line, c, what):
    exact(line.v, c['v'], what + ' changed the vertices')
    equal(bool(line.closed), c['closed'], what + ' changed closed')


@sub('C15', g.rec(c=curve(300, 5000), lay=g.layout), 16, name='intersections_many', purity=False, shards=2, thorough=10)
@sub('C15', g.rec(c=curve(), lay=g.layout, k=st.sampled_from([0, 0, 0, 0, 0, 0, 0, -100, 100, -540, 400])), 4000)
def intersections(x):
    c = x['c']
    if x.get('k') and c['exact']:
        # very small or large: powers of two, so that the rest stays exact
        c = dict(c, v=(np.array(c['v']) * 2.0 ** x['k']).tolist(), r0=(np.array(c['r0']) * 2.0 ** x['k']).tolist())
    r = setup(c)
    if r is None:
        label('left out')
        return
    v, s, e, hits, pts, tol, size = r
    line = Polyline(A(c['v'], x['lay']), closed=c['closed'])
    plane = Plane(np.array(c['r0']), np.array(c['n']))
    got = call(line.intersect_plane, plane)
    close(got, pts, tol[:, None] if len(tol) else 0, 'intersect_plane', ndarray=True)
    got = call(line.intersect_plane, plane, ret_edge_indices=True)
    require(isinstance(got, tuple) and len(got) == 2, 'intersect_plane with ret_edge_indices should return a pair')
    close(got[0], pts, tol[:, None] if len(tol) else 0, 'intersect_plane, with edges', ndarray=True)
    exact(num_array(got[1], 'edge indices'), hits, 'the indices of the edges')
    close(call(plane.polyline_xsection, line), pts, tol[:, None] if len(tol) else 0, 'polyline_xsection')
    got = call(plane.polyline_xsection, line, ret_edge_indices=True)
    require(isinstance(got, tuple) and len(got) == 2, 'polyline_xsection with ret_edge_indices should return a pair')
    exact(num_array(got[1], 'edge indices'), hits, 'the indices of the edges, polyline_xsection')
    unchanged(line, c, 'intersect_plane')
    label('%s, %d' % ('closed' if c['closed'] else 'open', min(3, len(hits))))
    label('on the plane' if np.any(s == 0) else 'crossing')
    nontrivial(len(hits) > 1)


def simplify(p, tol):
    out = []
    for q in p:
        if not out or np.abs(out[-1] - q).max() > tol:
            out.append(np.array(q))
    return np.array(out).reshape(-1, 3)


@sub('C15', g.rec(c=curve(300, 5000), lay=g.layout), 24, name='cut_many', purity=False, shards=2, thorough=10)
@sub('C15', g.rec(c=curve(), lay=g.layout), 6000)
def cut(x):
    c = x['c']
    r = setup(c)
    if r is None:
        label('left out')
        return
    v, s, e, hits, pts, tol, size = r
    n = len(v)
    line = Polyline(A(c['v'], x['lay']), closed=c['closed'])
    plane = Plane(np.array(c['r0']), np.array(c['n']))
    if len(hits) != (2 if c['closed'] else 1):
        raises(ValueError, line.cut_by_plane, plane)
        unchanged(line, c, 'cut_by_plane')
        label('%s, rejected: %d' % ('closed' if c['closed'] else 'open', min(3, len(hits))))
        return
    if c['closed']:
        if np.any(s == 0):
            # two edges at one vertex: the curve touches the plane there, from one side
            (z,) = np.flatnonzero(s == 0)
            label('touching from %s' % ('the front' if np.any(s > 0) else 'behind'))
            want = [v[z]]
            if np.any(s > 0):
                want += [v[(z + k) % n] for k in range(1, n + 1)]
        else:
            (i,) = [k for k, h in enumerate(hits) if s[e[h][0]] < 0]       # comes to the front
            k = e[hits[i]][1]
            want = [pts[i]]
            while s[k] > 0:
                want.append(v[k])
                k = (k + 1) % n
            want.append(pts[1 - i])
    else:
        a, b = e[hits[0]]
        if s[a] + s[b] < 0:
            # one end touches the plane, from behind
            label('touching from behind')
            want = [pts[0]]
        elif s[b] > s[a]:
            want = [pts[0]] + list(v[b:])
        else:
            want = list(v[:a + 1]) + [pts[0]]
    got = call(line.cut_by_plane, plane)
    require(isinstance(got, Polyline), 'cut_by_plane should return a Polyline')
    equal(bool(got.closed), False, 'closed')
    t = tol.max() * 2
    w = simplify(np.array(want), t)
    gv = simplify(num_array(got.v, 'cut_by_plane'), t)
    close(gv, w, t, 'the vertices of the part in front')
    unchanged(line, c, 'cut_by_plane')
    label('closed' if c['closed'] else 'open')
    nontrivial()
