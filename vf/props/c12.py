"""C12 Mesh cross sections are exactly the plane-mesh intersection."""
import types

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Plane, Polyline
from .. import gen as g
from ..core import call, close, equal, exact, fail, label, nontrivial, num_array, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/plane.py'])
RULE = 'Unions of up to 3 sheets, tubes, tori, boxes, tetrahedra and triangles (up to about 250 faces), with faces removed, vertices renumbered, faces reordered and turned over; non-trivial when the section has at least two components, or an open one of several segments.'
ASSUMPTIONS = ['meshes with a vertex closer to the plane than 1e-6 of their size, or with two intersection points closer than 1e-7, are left out',
               'every edge belongs to at most two faces and no two faces have the same three vertices']


def sheet(m, k):
    v = [[i, j, 0.0] for i in range(m + 1) for j in range(k + 1)]
    f = []
    for i in range(m):
        for j in range(k):
            a, b, c, d = i * (k + 1) + j, (i + 1) * (k + 1) + j, (i + 1) * (k + 1) + j + 1, i * (k + 1) + j + 1
            f += [[a, b, c], [a, c, d]] if (i + j) % 2 else [[a, b, d], [b, c, d]]
    return v, f


def tube(m, k, wrap):
    m = max(m, 3)
    rows = max(k, 3) if wrap else k + 1
    v = []
    for j in range(rows):
        for i in range(m):
            t = 2 * np.pi * i / m
            if wrap:
                s = 2 * np.pi * j / rows
                v.append([(3 + np.cos(s)) * np.cos(t), (3 + np.cos(s)) * np.sin(t), np.sin(s)])
            else:
                v.append([2 * np.cos(t), 2 * np.sin(t), j])
    f = []
    for j in range(rows if wrap else k):
        for i in range(m):
            a, b = j * m + i, j * m + (i + 1) % m
            c, d = (j + 1) % rows * m + (i + 1) % m, (j + 1) % rows * m + i
            f += [[a, b, c], [a, c, d]]
    return v, f


BOX = ([[x, y, z] for x in (0.0, 2.0) for y in (0.0, 2.0) for z in (0.0, 2.0)],
       [[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])
TETRA = ([[0.0, 0, 0], [3.0, 0, 0], [0, 3.0, 0], [0, 0, 3.0]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])
TRI = ([[0.0, 0, 0], [3.0, 0, 0], [0, 3.0, 1.0]], [[0, 1, 2]])


@st.composite
def mesh(draw, large=False):
    """[vertices, faces]"""
    v, f = [], []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        kind = draw(st.sampled_from(['sheet', 'sheet', 'tube', 'tube', 'torus', 'box', 'tetra', 'triangle']))
        m, k = (draw(st.integers(1, 8)), draw(st.integers(1, 6))) if not large else (draw(st.integers(12, 25)), draw(st.integers(20, 35)))
        w, h = sheet(m, k) if kind == 'sheet' else tube(m, k, False) if kind == 'tube' else tube(m, k, True) if kind == 'torus' else {'box': BOX, 'tetra': TETRA, 'triangle': TRI}[kind]
        w = np.array(w, dtype=float)
        w = w.dot(g.rot(draw(g.quaternion())).T) + np.array(draw(g.nums(3))) * draw(st.sampled_from([0.0, 0.3, 1.0]))
        j = draw(st.sampled_from([0.0, 0.0, 0.05, 0.3, 1.0] if not large else [0.0, 0.3, 30.0, 30.0]))
        if j:
            w = w + j / 10 * np.array(draw(g.nums(w.size, mode='gen'))).reshape(w.shape)
        h = np.array(h)
        f.append(h + sum(map(len, v)))
        v.append(w)
    v, f = np.vstack(v), np.vstack(f)
    bits = g.noise(draw, len(f))
    if draw(st.booleans()):
        keep = np.array([b % 8 != 0 for b in bits])
        f = f[keep]
    f = np.array([np.roll(t, b // 8)[::(-1 if b & 64 else 1)] for t, b in zip(f, bits)], dtype=int).reshape(-1, 3)
    if draw(st.booleans()):
        p = np.argsort(g.decode(g.noise(draw, 2 * len(v)), 'gen'), kind='stable')
        v = v[p]
        inv = np.empty(len(p), dtype=int)
        inv[p] = np.arange(len(p))
        f = inv[f]
    pad = draw(st.sampled_from([0, 0, 0, 3, 256, 70000])) if not large else draw(st.sampled_from([0, 0, 300, 70000]))
    if pad:
        # vertices without faces
        at = draw(st.sampled_from([0, len(v) // 2, len(v)])) if pad > 3 else draw(st.integers(0, len(v)))
        v = np.vstack([v[:at], np.tile(v[:1], (min(pad, 1000), 1)), v[at:]])
        f = f + min(pad, 1000) * (f >= at)
    if len(f) and draw(st.booleans()):
        f = f[np.argsort(g.decode(g.noise(draw, 2 * len(f)), 'gen'), kind='stable')]
    v = v * draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    return [(v + 0.0).tolist(), f.tolist()]


@st.composite
def cut(draw, large=False):
    v, f = draw(mesh(large))
    v = np.array(v)
    n = np.array(draw(g.direction(consts=D)))
    if draw(st.integers(0, 5)) == 5:
        r0 = np.array(draw(g.nums(3)))
    else:
        # through the mesh: between two of its vertices
        i, j = draw(st.integers(0, len(v) - 1)), draw(st.integers(0, len(v) - 1))
        t = draw(st.sampled_from([0.5, 0.31, 0.77, 0.123, 0.9]))
        r0 = v[i] * t + v[j] * (1 - t)
        if draw(st.booleans()):
            r0 = r0 * 0.7 + 0.3 * v.mean(axis=0)
    return {'v': v.tolist(), 'f': f, 'n': (n + 0.0).tolist(), 'r0': (r0 + 0.0).tolist()}


class Section(object):
    """The intersection by brute force: its points (one for each mesh edge which crosses) and segments (one for each face)."""

    def __init__(self, c):
        self.v, self.f = np.array(c['v']), np.array(c['f'], dtype=int).reshape(-1, 3)
        n = np.array(c['n'])
        n = n / np.linalg.norm(n)
        self.d = (self.v - np.array(c['r0'])).dot(n)
        self.size = np.abs(self.v - self.v.mean(axis=0)).max() + 1e-300
        self.usable = bool(np.abs(self.d).min() > 1e-6 * self.size)
        self.where = np.abs(self.v).max() + np.abs(c['r0']).max() + self.size
        self.tol = 1e-8 * self.where
        if not self.usable:
            return
        index, pts, self.segments = {}, [], []
        for t in self.f:
            ends = []
            for a, b in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
                if (self.d[a] > 0) != (self.d[b] > 0):
                    k = (min(a, b), max(a, b))
                    if k not in index:
                        index[k] = len(pts)
                        x = self.d[a] / (self.d[a] - self.d[b])
                        pts.append(self.v[a] + x * (self.v[b] - self.v[a]))
                    ends.append(index[k])
            if ends:
                self.segments.append(frozenset(ends))
        self.pts = np.array(pts).reshape(-1, 3)
        if len(pts) > 1:
            gaps = np.linalg.norm(self.pts[:, None] - self.pts[None], axis=2) + np.eye(len(pts)) * 1e300
            self.usable = bool(gaps.min() > 10 * self.tol)
        if len(set(self.segments)) != len(self.segments):
            self.usable = False
        parent = list(range(len(pts)))

        def root(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for s in self.segments:
            a, b = s
            parent[root(a)] = root(b)
        self.comp = [root(i) for i in range(len(pts))]
        self.components = {}
        for s in self.segments:
            self.components.setdefault(self.comp[min(s)], set()).add(s)
        degree = [0] * len(pts)
        for s in self.segments:
            for x in s:
                degree[x] += 1
        if any(x > 2 for x in degree):
            self.usable = False
        self.loop = {k: all(degree[x] == 2 for s in ss for x in s) for k, ss in self.components.items()}

    def nodes(self, v, what):
        out = []
        for p in num_array(v, what):
            dist = np.linalg.norm(self.pts - p, axis=1)
            i = int(np.argmin(dist))
            require(dist[i] <= self.tol, '%s: the vertex %r is no point where an edge crosses the plane', what, p.tolist())
            out.append(i)
        return out

    def match(self, line, what):
        """The component which this polyline traverses."""
        require(isinstance(line, Polyline), '%s: not a Polyline: %r', what, line)
        nodes = self.nodes(line.v, what)
        require(len(nodes) > 1, '%s: a component with %d vertices', what, len(nodes))
        pairs = list(zip(nodes, nodes[1:])) + ([(nodes[-1], nodes[0])] if line.closed else [])
        got = [frozenset(p) for p in pairs]
        k = self.comp[nodes[0]]
        require(len(set(got)) == len(got), '%s: a segment occurs twice', what)
        require(set(got) == self.components[k], '%s: its segments are not those of the component: %d missing, %d too many, of %d', what, len(self.components[k] - set(got)), len(set(got) - self.components[k]), len(self.components[k]))
        equal(bool(line.closed), self.loop[k], '%s: closed' % what)
        return k


def mesh_of(c, dtype=np.int64):
    return types.SimpleNamespace(v=np.array(c['v']), f=np.array(c['f'], dtype=dtype).reshape(-1, 3))


@sub('C12', g.rec(c=cut(True), dtype=st.sampled_from(['int64', 'uint32', 'int32'])), 48, name='large_meshes', purity=False, shards=2, thorough=10)
@sub('C12', g.rec(c=cut(), dtype=st.sampled_from(['int64', 'int64', 'uint32', 'uint64', 'int32'])), 3000)
def sections(x):
    c = x['c']
    s = Section(c)
    if not s.usable:
        label('touching')
        return
    plane = Plane(np.array(c['r0']), np.array(c['n']))
    m = mesh_of(c, x['dtype'])
    mixed = [i for i, t in enumerate(s.f) if len({s.d[j] > 0 for j in t}) == 2]
    exact(call(plane.mesh_intersecting_faces, m), s.f[mixed], 'mesh_intersecting_faces')
    lines = call(plane.mesh_xsections, m)
    require(isinstance(lines, list), 'mesh_xsections should return a list')
    got = [s.match(l, 'component %d of mesh_xsections' % i) for i, l in enumerate(lines)]
    equal(len(got), len(s.components), 'the number of components')
    equal(sorted(got), sorted(s.components), 'the components')
    one = call(plane.mesh_xsection, m)
    require(isinstance(one, Polyline), 'mesh_xsection should return a Polyline')
    if not s.components:
        require(one.v is None or len(one.v) == 0, 'mesh_xsection should be empty')
    else:
        stacked(s, one)
    k = list(s.loop.values())
    label('components: %s' % ('none' if not k else '1' if len(k) == 1 else '2+'))
    for x in k:
        label('loop' if x else 'open')
    nontrivial(len(k) > 1 or any(not s.loop[i] and len(s.components[i]) > 2 for i in s.components))


def stacked(s, one):
    require(bool(one.closed), 'mesh_xsection should be closed')
    nodes = s.nodes(one.v, 'mesh_xsection')
    equal(sorted(nodes), list(range(len(s.pts))), 'mesh_xsection: the points where edges cross, each once')
    segs = set(s.segments)
    runs = 1
    for a, b in zip(nodes, nodes[1:]):
        if s.comp[a] != s.comp[b]:
            runs += 1
        else:
            require(frozenset((a, b)) in segs, 'mesh_xsection: consecutive vertices of one component are not joined by a face')
    equal(runs, len(s.components), 'mesh_xsection: each component in one piece')


@sub('C12', g.rec(c=cut(), times=st.sampled_from([2, 2, 3]), over=st.booleans(), mixed=st.booleans()), 500, name='coincident')
def coincident(x):
    """Two surfaces in one place, each with vertices of its own, are two surfaces: nothing of their sections is merged or dropped."""
    c, k = x['c'], x['times']
    s = Section(c)
    if not s.usable:
        label('touching')
        return
    n = len(c['v'])
    f = np.vstack([(s.f[:, ::-1] if x['over'] and i == 1 else s.f) + n * i for i in range(k)])
    if x['mixed']:
        f = f.reshape(k, -1, 3).transpose(1, 0, 2).reshape(-1, 3)
    m = mesh_of({'v': np.vstack([s.v] * k), 'f': f})
    plane = Plane(np.array(c['r0']), np.array(c['n']))
    lines = call(plane.mesh_xsections, m)
    got = [s.match(l, 'component %d of mesh_xsections' % i) for i, l in enumerate(lines)]
    equal(sorted(got), sorted(list(s.components) * k), 'the components, each %d times' % k)
    one = call(plane.mesh_xsection, m)
    if s.components:
        nodes = s.nodes(one.v, 'mesh_xsection')
        equal(sorted(nodes), sorted(list(range(len(s.pts))) * k), 'mesh_xsection: the points where edges cross, each %d times' % k)
        segs = set(s.segments)
        require(sum(frozenset(p) not in segs for p in zip(nodes, nodes[1:])) < k * len(s.components), 'mesh_xsection: consecutive vertices of a component are not joined by a face')
    nontrivial(len(lines) > k)


@st.composite
def ring_of_tubes(draw):
    """Tubes of uneven radius around one place, cut across, which are about as far from it as each other."""
    k = draw(st.integers(2, 4))
    v, f = [], []
    for i in range(k):
        m = draw(st.sampled_from([8, 17, 31, 33, 40, 64, 65, 100]))
        w, h = tube(m, draw(st.sampled_from([1, 1, 2])), False)
        w = np.array(w, dtype=float)
        w[:, :2] *= 1 + 0.06 * (np.array(draw(g.nums(m, mode='gen'))) % 10)[np.arange(len(w)) % m, None]
        a = 2 * np.pi * i / k
        w = w - [0, 0, 0.431] + [6 * np.cos(a), 6 * np.sin(a), 0]
        h = np.array(h)
        if draw(st.booleans()):
            # an open one
            h = h[:-draw(st.integers(1, m))]
        f.append(h + sum(map(len, v)))
        v.append(w)
    q = g.rot(draw(g.quaternion()))
    t = np.array(draw(g.nums(3)))
    near = np.array(draw(g.points(1, 6, scales=[1.0]))) * draw(st.sampled_from([0.0, 0.02, 0.3]))
    f = np.vstack(f)
    if draw(st.booleans()):
        f = f[np.argsort(g.decode(g.noise(draw, 2 * len(f)), 'gen'), kind='stable')]
    return {'c': {'v': (np.vstack(v).dot(q.T) + t).tolist(), 'f': f.tolist(), 'n': (q[:, 2] + 0.0).tolist(), 'r0': t.tolist()}, 'near': near.dot(q.T).tolist(), 'k': 1.0, 'at': t.tolist()}


@sub('C12', ring_of_tubes(), 400, name='neighborhood_of_similar', purity=False)
@sub('C12', g.rec(c=cut(), near=g.size(100, 255).flatmap(lambda n: g.points(n=n, scales=[1.0])) | g.points(257, 3000, scales=[1.0]), at=st.integers(0, 400), k=st.sampled_from([0.0, 0.01, 0.3, 1.0])), 120, name='neighborhood_many', purity=False, shards=2, thorough=10)
@sub('C12', g.rec(c=cut(), near=g.points(1, 30, scales=[1.0]), at=st.integers(0, 400), k=st.sampled_from([0.0, 0.01, 0.3, 1.0, 10.0])), 3000)
def neighborhood(x):
    c = x['c']
    s = Section(c)
    if not s.usable:
        label('touching')
        return
    near = np.array(x['near']) * x['k'] * s.size / 5
    if isinstance(x['at'], list):
        near = np.array(x['near']) + x['at']
    elif len(s.pts):
        near = near + s.pts[x['at'] % len(s.pts)]
    plane = Plane(np.array(c['r0']), np.array(c['n']))
    lines = call(plane.mesh_xsections, mesh_of(c), neighborhood=near)
    require(isinstance(lines, list), 'mesh_xsections should return a list')
    if not s.components:
        equal(len(lines), 0, 'the number of components')
        require(len(call(plane.mesh_xsection, mesh_of(c), near).e if call(plane.mesh_xsection, mesh_of(c), near).v is not None else []) == 0, 'mesh_xsection should be empty')
        return
    equal(len(lines), 1, 'the number of components with a neighborhood')
    mean = {}
    for k in s.components:
        p = s.pts[[i for i in range(len(s.pts)) if s.comp[i] == k]]
        mean[k] = float(np.mean(np.min(np.linalg.norm(p[:, None] - near[None], axis=2), axis=1)))
    order = sorted(mean, key=mean.get)
    k = s.match(lines[0], 'the component next to the neighborhood')
    if len(order) > 1 and mean[order[1]] - mean[order[0]] < 1e-6 * s.where:
        label('equally near')
        return
    equal(k, order[0], 'which component (on average %r from the neighborhood; they are at %r)' % (mean[k], sorted(mean.values())))
    one = call(plane.mesh_xsection, mesh_of(c), near)
    nodes = s.nodes(one.v, 'mesh_xsection')
    equal(sorted(nodes), [i for i in range(len(s.pts)) if s.comp[i] == k], 'mesh_xsection with a neighborhood: its points')
    require(bool(one.closed), 'mesh_xsection should be closed')
    label('%s of %s' % ('loop' if s.loop[k] else 'open', '1' if len(order) == 1 else '2+'))
    nontrivial(len(order) > 1)


@sub('C12', g.rec(v=g.points(3, 30, mode='half', scales=[1.0]), f=st.lists(st.lists(st.integers(0, 29), min_size=3, max_size=3), max_size=40), axis=st.integers(0, 2), s=st.sampled_from([1.0, -2.0]), at=st.integers(0, 29)), 1500)
def intersecting_faces(x):
    """Any faces, and planes through their vertices."""
    v = np.array(x['v'])
    f = np.array(x['f'], dtype=int).reshape(-1, 3) % len(v)
    n = np.zeros(3)
    n[x['axis']] = x['s']
    r0 = v[x['at'] % len(v)]
    d = np.sign((v - r0)[:, x['axis']] * x['s'])
    want = [t for t in f.tolist() if not (all(d[i] > 0 for i in t) or all(d[i] < 0 for i in t))]
    got = call(Plane(r0, n).mesh_intersecting_faces, types.SimpleNamespace(v=v, f=f))
    exact(got, np.array(want, dtype=int).reshape(-1, 3), 'mesh_intersecting_faces')
    nontrivial(0 < len(want) < len(f))
