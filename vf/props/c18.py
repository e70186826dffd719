"""C18 Boxes and solids have the dimensions and orientation they state."""
import itertools

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Box
from blmath.geometry import shapes
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/box.py', 'blmath/geometry/shapes.py'])
RULE = 'Boxes, prisms and cubes at any origin, given as arrays, lists or ints, with sizes from 0 to 2.5e4, and triangles of any shape; non-trivial when all three sizes are positive and different, or the triangle is not degenerate.'
ASSUMPTIONS = ['lace.topology.quads_to_tris is a stand-in which splits a quad [a b c d] into [a b c] and [a c d]', 'triangles with an angle below 1e-3, and those for which the products of the sides are below 2e-8 (the code takes them for collinear), are left out']


@st.composite
def cuboid(draw, zero=True):
    ints = draw(st.integers(0, 4)) == 0
    s = 1.0 if ints else draw(g.scale())
    o = draw(g.nums(3, mode='int' if ints else None, consts=D))
    z = draw(g.nums(3, mode='int' if ints else None, consts=D))
    o = [c * s for c in o]
    if ints:
        o, z = [float(round(c)) for c in o], [float(round(c)) for c in z]
    z = [abs(c) * s for c in z]
    if not zero:
        z = [c if c > 1e-3 * s else s for c in z]
    if not ints and draw(st.integers(0, 3)) == 0:
        # whole numbers on one side, fractions on the other
        o = [float(round(c)) for c in o]
        for i in draw(st.lists(st.integers(0, 2), max_size=2)):
            z[i] = float(round(z[i])) if zero or round(z[i]) else 1.0
    return {'o': o, 'z': z, 'io': all(float(c).is_integer() and abs(c) < 1e5 for c in o) and draw(st.booleans()), 'iz': all(float(c).is_integer() and abs(c) < 1e5 for c in z) and draw(st.booleans()), 'as': draw(st.sampled_from(['array', 'list', 'tuple'])), 'int': ints, 'lay': draw(g.layout4)}


def give(v, c, whole=None):
    whole = c['int'] if whole is None else whole
    if whole and c['as'] != 'array':
        v = [int(a) for a in v]
    return A(v, c['lay'], np.int64 if whole else np.float64) if c['as'] == 'array' else list(v) if c['as'] == 'list' else tuple(v)


@sub('C18', cuboid(), 5000)
def box(c):
    b = call(Box, give(c['o'], c, c['io']), give(c['z'], c, c['iz']))
    o, z = np.array(c['o']), np.array(c['z'])
    tol = 1e-12 * (np.abs(o).max() + z.max()) + 1e-300
    exact(b.origin, o, 'origin')
    exact(b.shape, z, 'shape')
    close(call(getattr, b, 'ranges'), np.column_stack([o, o + z]), tol, 'ranges')
    for i, a in enumerate('xyz'):
        close(call(getattr, b, 'min_' + a), o[i], tol, 'min_' + a)
        close(call(getattr, b, 'mid_' + a), o[i] + z[i] / 2, tol, 'mid_' + a)
        close(call(getattr, b, 'max_' + a), o[i] + z[i], tol, 'max_' + a)
    close(call(getattr, b, 'width'), z[0], 0, 'width')
    close(call(getattr, b, 'height'), z[1], 0, 'height')
    close(call(getattr, b, 'depth'), z[2], 0, 'depth')
    close(call(getattr, b, 'center_point'), o + z / 2, tol, 'center point')
    close(call(getattr, b, 'floor_point'), o + z * [0.5, 0, 0.5], tol, 'floor point')
    v = z[0] * z[1] * z[2]
    close(call(getattr, b, 'volume'), v, 1e-12 * v, 'volume')
    s = 2 * (z[0] * z[1] + z[1] * z[2] + z[0] * z[2])
    close(call(getattr, b, 'surface_area'), s, 1e-12 * s, 'surface area')
    exact(b.origin, o, 'origin afterwards')
    exact(b.shape, z, 'shape afterwards')
    nontrivial(min(z) > 0 and len(set(z.tolist())) == 3)


@st.composite
def bad_box(draw):
    c = draw(cuboid())
    k = draw(st.sampled_from(['negative', 'negative', 'short', 'long', 'deep', 'none', 'text']))
    which = draw(st.sampled_from(['o', 'z']))
    if k == 'negative':
        i = draw(st.integers(0, 2))
        c['z'][i] = draw(st.sampled_from([-1.0, -5e-2, -1e-9, -1e6])) if not c['int'] else -1.0
    elif k == 'short':
        c[which] = c[which][:draw(st.integers(0, 2))]
    elif k == 'long':
        c[which] = c[which] + [draw(st.sampled_from([0.0, 1.0]))]
    elif k == 'deep':
        c[which] = [c[which]]
        c['as'] = 'array' if c['int'] else c['as']
    elif k == 'none':
        c[which] = None
    else:
        c[which] = ['a', 'b', 'c']
    return [k, c]


@sub('C18', bad_box(), 1500)
def rejected(kc):
    k, c = kc
    f = lambda v: v if v is None or 'a' in v else give(v, c)
    raises(ValueError, Box, f(c['o']), f(c['z']), _what='Box with %s values' % k)
    label(k)
    nontrivial()


def solid(v, f, what):
    """A closed surface facing outwards; returns its volume and the corners."""
    v = num_array(v, what + ': vertices')
    f = num_array(f, what + ': faces')
    require(v.ndim == 2 and v.shape[1] == 3, '%s: vertices of shape %s', what, v.shape)
    require(f.ndim == 2 and f.shape[1] == 3 and np.all(f == np.round(f)) and f.min() >= 0 and f.max() < len(v), '%s: faces %r', what, f.tolist())
    f = f.astype(int)
    edges = [(int(a), int(b)) for t in f for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0]))]
    require(len(set(edges)) == len(edges), '%s: two faces have an edge in the same direction: %r', what, f.tolist())
    require(all((b, a) in set(edges) for a, b in edges), '%s: the surface is not closed: %r', what, f.tolist())
    w = v - v.mean(axis=0)
    return float(np.sum(np.cross(w[f[:, 0]], w[f[:, 1]]) * w[f[:, 2]]) / 6), v, f


def same_points(got, want, tol, what):
    got = np.asarray(got)
    require(len(got) == len(want), '%s: %d corners, expected %d', what, len(got), len(want))
    d = np.abs(got[:, None] - want[None]).max(axis=2)
    require(np.all(d.min(axis=1) <= tol) and np.all(d.min(axis=0) <= tol), '%s: corners %r, expected %r', what, got.tolist(), want.tolist())


def flat_form(fn, args, kw, v, f, tol, what):
    t = call(fn, *args, **kw)
    close(t, np.asarray(v)[np.asarray(f, dtype=int)], tol, what + ': as one array')


@sub('C18', g.rec(c=cuboid(zero=False), cube=st.booleans(), pos=st.booleans(), mixed=st.booleans()), 3000)
def prism(x):
    c = x['c']
    o = np.array(c['o'])
    z = np.repeat(c['z'][0], 3) if x['cube'] else np.array(c['z'])
    dt = np.int64 if c['io'] else np.float64
    if x['cube']:
        fn, args = shapes.create_cube, (A(o, c['lay'], dt), int(z[0]) if c['iz'] else float(z[0]))
    else:
        fn, args = shapes.create_rectangular_prism, (A(o, c['lay'], dt), A(z, c['lay'], np.int64 if c['iz'] else np.float64))
        if x['mixed']:
            # ints where the numbers are whole
            args = (args[0], [int(q) if float(q).is_integer() and abs(q) < 1e5 else float(q) for q in z])
    what = 'cube' if x['cube'] else 'prism'
    r = call(fn, *(args + (True,)))if x['pos'] else call(fn, *args, ret_unique_vertices_and_faces=True)
    require(isinstance(r, tuple) and len(r) == 2, '%s: not a pair', what)
    vol, v, f = solid(r[0], r[1], what)
    tol = 1e-9 * (np.abs(o).max() + z.max())
    same_points(v, np.array([o + z * [i & 1, i >> 1 & 1, i >> 2] for i in range(8)]), 1e-12 * (np.abs(o).max() + z.max()), what)
    close(vol, np.prod(z), 1e-9 * np.prod(z) + tol * 6 * z.max() * z.max(), what + ': enclosed volume')
    # each triangle lies in a side of the prism and faces out of it
    for t in f:
        n = np.cross((v[t[1]] - v[t[0]]) / z, (v[t[2]] - v[t[0]]) / z)
        k = int(np.argmax(np.abs(n)))
        close(np.abs(n), np.eye(3)[k], 1e-6 * (1 + np.abs(o).max() / z.min()), '%s: a triangle across the inside: %r' % (what, t.tolist()))
        outward = (v[t[0], k] - o[k] - z[k] / 2) * n[k]
        require(outward > 0, '%s: the triangle %r faces inside', what, t.tolist())
    flat_form(fn, args, {}, v, f, 0, what)
    label(what)
    nontrivial(len(set(z.tolist())) == 3 or x['cube'])


@st.composite
def triangle(draw):
    p = np.array(draw(g.nums(9, consts=D))).reshape(3, 3)
    p = p * draw(g.scale()) + (np.array(draw(g.nums(3, mode='wide'))) if draw(st.integers(0, 4)) == 0 else 0)
    return (p + 0.0).tolist()


@sub('C18', g.rec(p=triangle(), h=st.sampled_from([1.0, 0.5, 3, 10.0, 1e-2, 1e3, 0.37, 7, 1e-3, 1e-4, 1e5]), lay=g.layout4), 3000)
def triangular_prism(x):
    p = np.array(x['p'])
    e = p - np.roll(p, -1, axis=0)
    n = np.cross(p[1] - p[0], p[2] - p[0])
    a = np.linalg.norm(n) / 2
    m = np.linalg.norm(e, axis=1).max()
    if a <= 1e-3 * m * m or m < 1e-6 * np.abs(p).max() or np.abs(n).max() < 2e-8:
        label('degenerate')
        return
    n = n / (2 * a)
    h = x['h']
    P = A(p, x['lay'])
    fn, args = shapes.create_triangular_prism, (P[0], P[1], P[2], h)
    r = call(fn, *args, ret_unique_vertices_and_faces=True)
    require(isinstance(r, tuple) and len(r) == 2, 'not a pair')
    vol, v, f = solid(r[0], r[1], 'triangular prism')
    # the normal is good to the rounding of the edges over the smallest height of the triangle
    size = np.abs(p).max()
    ntol = 1e-13 * (size + m) * m / a + 1e-12
    tol = ntol * h + 1e-13 * (size + h)
    same_points(v, np.vstack([p, p - h * n]), 10 * tol, 'triangular prism')
    close(vol, a * h, 1e-9 * a * h + 100 * tol * (a + m * h), 'triangular prism: enclosed volume')
    sides = 0
    c = v.mean(axis=0)
    for t in f:
        k = np.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]])
        out = (v[t[0]] - c).dot(k)
        require(out > 0, 'triangular prism: the triangle %r faces inside', t.tolist())
        k = k / np.linalg.norm(k)
        # parallel to the base, or perpendicular to it and parallel to an edge
        if abs(k.dot(n)) < 0.5:
            sides += 1
            side = min(abs(np.linalg.norm(k - np.cross(q, n) / np.linalg.norm(q))) for q in (p[1] - p[0], p[2] - p[1], p[0] - p[2]))
            require(side < 1e-6 + 100 * tol / min(h, np.linalg.norm(e, axis=1).min()), 'triangular prism: the triangle %r is in no side', t.tolist())
    equal(sides, 6, 'triangular prism: triangles in the sides')
    flat_form(fn, args, {}, v, f, 0, 'triangular prism')
    label('int height' if isinstance(h, int) else 'float height')
    nontrivial()


@sub('C18', st.booleans(), 30, shards=1)
def horizontal_plane(pos):
    r = call(shapes.create_horizontal_plane, True) if pos else call(shapes.create_horizontal_plane, ret_unique_vertices_and_faces=True)
    v, f = num_array(r[0], 'vertices'), num_array(r[1], 'faces').astype(int)
    t = num_array(call(shapes.create_horizontal_plane), 'triangles')
    exact(t, v[f], 'as one array')
    require(t.ndim == 3 and t.shape[1:] == (3, 3), 'shape %s', t.shape)
    exact(t[..., 1], np.zeros(t.shape[:2]), 'height')
    a = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    require(np.all(np.abs(a[:, 1]) > 0), 'a triangle is degenerate')
    require(np.all(a[:, 1] > 0) or np.all(a[:, 1] < 0), 'the triangles face opposite sides')
    # two triangles which tile the square with corners at unit distance on the x and z axes
    same_points(v, np.array([[1., 0, 0], [-1, 0, 0], [0, 0, 1], [0, 0, -1]]), 0, 'horizontal plane')
    close(np.abs(a[:, 1]).sum() / 2, 2, 0, 'horizontal plane: area')
    for t1, t2 in itertools.combinations(t, 2):
        common = {tuple(q) for q in t1} & {tuple(q) for q in t2}
        require(len(common) == 2, 'horizontal plane: the triangles do not share an edge: %r', t.tolist())
    nontrivial()
