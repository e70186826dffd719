"""C30 Mesh normal objectives have right values and derivatives."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import env
from .. import gen as g
from ..core import A, Violation, fail, label, nontrivial, num_array, require, short
from ..registry import sub

RULE = 'Meshes of 3 to 14 vertices and up to 20 triangles (random, strips, fans, closed), scaled and moved, with histories of up to 5 steps which assign the leaf array, replace v by one of the same or another size, the faces, the corners or normalized, reading value and derivative after each step or not; values against numpy, derivatives against analytic forward differentiation of the definition, compared at every entry; non-trivial when at least one step replaces the vertices and every face is well-shaped.'
ASSUMPTIONS = ['chumpy is imported with names of older numpy and inspect supplied', 'rows whose face is degenerate, or whose normals cancel to less than 1e-3 of their size, are not compared',
               'in the unnormalized form every vertex lies in a face', 'the two operands of a cross product are different objects']


def _c():
    d = env.load_chumpy()
    return d['ch'], d['normals']


def prepare(scratch):
    _c()


# ---- the definitions and their directional derivatives; dV holds all unit directions: (k, n, 3)

def tri(V, dV, F):
    e1, e2 = V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]
    d1, d2 = dV[:, F[:, 1]] - dV[:, F[:, 0]], dV[:, F[:, 2]] - dV[:, F[:, 0]]
    size = np.linalg.norm(e1, axis=1) * np.linalg.norm(e2, axis=1)
    lens = np.linalg.norm(e1, axis=1) + np.linalg.norm(e2, axis=1)
    return np.cross(e1, e2), np.cross(d1, e2[np.newaxis]) + np.cross(e1[np.newaxis], d2), size, lens


def unit(c, dc, p=1.0):
    """c / |c|^p"""
    n = np.linalg.norm(c, axis=1)[:, np.newaxis]
    n = np.where(n == 0, 1.0, n)
    u = c / n
    return c / n ** p, (dc - p * u * (u * dc).sum(axis=2)[:, :, np.newaxis]) / n ** p


def reference(kind, V, F, par):
    """Values (m, 3), derivatives (3n, m, 3), tolerances of both per row, and which rows to compare."""
    n = len(V)
    dV = np.eye(3 * n).reshape(3 * n, n, 3)
    far = np.abs(V).max()
    if kind == 'edges':
        cp, cm = par
        r = V[F[:, cp]] - V[F[:, cm]]
        return r, dV[:, F[:, cp]] - dV[:, F[:, cm]], np.full(len(r), 1e-12 * far), np.full(len(r), 1e-12), np.ones(len(r), dtype=bool)
    if kind == 'normalized':
        s = np.linalg.norm(V, axis=1)
        r, d = unit(V, dV)
        ok = s > 1e-60
        s = np.where(ok, s, 1.0)
        return r, d, np.full(n, 1e-12), 1e-11 / s, ok
    c, dc, size, lens = tri(V, dV, F)
    noise = 1e-14 * (lens * far + size)          # rounding of the edges, in the cross product
    dnoise = 1e-14 * (lens + far)
    ok = np.linalg.norm(c, axis=1) > 1e-3 * size
    if kind == 'scaled':
        return c, dc, noise * 10, dnoise * 10, np.ones(len(c), dtype=bool)
    if kind == 'normals':
        r, d = unit(c, dc)
        m = np.maximum(np.linalg.norm(c, axis=1), 1e-300)
        return r, d, 1e-12 + 20 * noise / m, 100 * dnoise / m + 100 * noise * lens / m ** 2 + 1e-12 * lens / m, ok
    m = np.zeros((n, 3))
    dm = np.zeros((3 * n, n, 3))
    cnt, tot, nz, dnz, ln = (np.zeros(n) for _ in range(5))
    bad = np.zeros(n, dtype=bool)
    for k, face in enumerate(F):
        for i in face:
            m[i] += c[k]
            dm[:, i] += dc[:, k]
            cnt[i] += 1
            tot[i] += size[k]
            nz[i] += noise[k]
            dnz[i] += dnoise[k]
            ln[i] += lens[k]
            bad[i] |= not ok[k]
    ok = (np.linalg.norm(m, axis=1) > 1e-3 * tot) & (cnt > 0) & ~bad
    q = np.maximum(np.linalg.norm(m, axis=1), 1e-300)
    if par:
        r, d = unit(m, dm)
        return r, d, 1e-12 + 20 * nz / q, 100 * dnz / q + 100 * nz * ln / q ** 2 + 1e-12 * ln / q, ok
    k = np.maximum(cnt, 1)
    r, d = unit(m / k[:, np.newaxis], dm / k[:, np.newaxis], 0.5)
    s = np.sqrt(q / k)
    return r, d, (1e-12 + 20 * nz / q) * s, (100 * dnz / q + 100 * nz * ln / q ** 2 + 1e-12 * ln / q) * s, ok


def compare(o, leaf, lead, ref, what, shape, read):
    r, d, tr, td, ok = ref
    if read in ('value', 'both'):
        got = num_array(o.r, what, shape).reshape(-1, 3)
        err = np.abs(got - r).max(axis=1)
        bad = ok & ~(err <= tr)
        require(not np.any(bad), '%s: row %d is %s, expected %s', what, int(np.argmax(bad)), short(got[np.argmax(bad)].tolist()), short(r[np.argmax(bad)].tolist()))
    if read in ('derivative', 'both'):
        J = o.dr_wrt(leaf)
        require(J is not None, '%s: no derivative', what)
        J = J.toarray() if sp.issparse(J) else np.asarray(J)
        J = num_array(J, what + ', derivative', (r.size, d.shape[0])).T.reshape(d.shape)
        err = np.abs(J - lead * d).max(axis=(0, 2))
        bad = ok & ~(err <= abs(lead) * td)
        if np.any(bad):
            i = int(np.argmax(bad))
            k = int(np.argmax(np.abs(J - lead * d)[:, i].max(axis=1)))
            fail('%s: the derivative of row %d by coordinate %d of vertex %d is %s, expected %s', what, i, k % 3, k // 3, short(J[k, i].tolist()), short((lead * d[k, i]).tolist()))


@st.composite
def mesh(draw, n):
    kind = draw(st.sampled_from(['any', 'any', 'strip', 'fan', 'closed']))
    if kind == 'strip':
        F = [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(n - 2)]
    elif kind == 'fan':
        F = [[0, i, i + 1] for i in range(1, n - 1)]
    elif kind == 'closed':
        F = [[0, i, i % (n - 2) + 1] for i in range(1, n - 1)] + [[n - 1, i % (n - 2) + 1, i] for i in range(1, n - 1)] if n >= 5 else [[0, 1, 2], [0, 2, 1]]
    else:
        k = draw(st.integers(1, 20))
        buf = list(draw(st.binary(min_size=3 * k, max_size=3 * k)))
        F = []
        for i in range(k):
            a = buf[3 * i] % n
            b = (a + 1 + buf[3 * i + 1] % (n - 1)) % n
            c = [x for x in range(n) if x not in (a, b)][buf[3 * i + 2] % (n - 2)]
            F.append([a, b, c])
    p = draw(st.integers(0, 3))
    if p:
        F = [[f[(j + p) % 3] for j in range(3)] for f in F]
    return F


def verts(n):
    return g.points(n=n, mode=None, dups=False, scales=[1.0, 1.0, 0.5, 1e-2, 1e2, 1e3, 1e-4, 1e-6, 1e-9])


@st.composite
def history(draw, kind, sizes=None):
    n = (draw(st.integers(3, 14)) if draw(st.integers(0, 2)) else draw(st.integers(3, 6))) if not sizes else draw(st.sampled_from(sizes))
    F = draw(mesh(n))
    c = {'v': draw(verts(n)), 'f': F, 'ft': draw(st.sampled_from(['int64', 'int64', 'uint32', 'int32'])), 'flat': draw(st.booleans()), 'lead': draw(st.sampled_from([1.0, 1.0, 2.0, -0.5])),
         'par': [0, 0], 'read0': draw(st.sampled_from(['both', 'both', 'value', 'none', 'derivative'])), 'ops': [], 'given': draw(st.booleans()), 'norm': True}
    if kind == 'edges':
        a = draw(st.integers(0, 2))
        c['par'] = [a, (a + draw(st.integers(1, 2))) % 3]
    if kind == 'vertex':
        c['norm'] = draw(st.booleans())
    names = ['x', 'x', 'x']
    if kind in ('edges', 'vertex', 'normalized'):
        names += ['v', 'v', 'size']
    if kind in ('edges', 'vertex'):
        names += ['f']
    if kind == 'edges':
        names += ['par']
    if kind == 'vertex':
        names += ['norm']
    for _ in range(draw(st.integers(0, 5 if not sizes else 2))):
        op = draw(st.sampled_from(names))
        o = {'op': op, 'read': draw(st.sampled_from(['both', 'both', 'value', 'derivative', 'none']))}
        if op in ('x', 'v'):
            o['v'] = draw(verts(n))
            o['raw'] = draw(st.booleans())
        elif op == 'size':
            n = 1 + max(map(max, F)) if kind != 'normalized' else draw(st.integers(1, 10))
            n = n + draw(st.integers(0, 2))
            o['v'] = draw(verts(n))
            o['raw'] = draw(st.booleans())
        elif op == 'f':
            if draw(st.booleans()):
                # the same faces but for some turned over, or the corners exchanged between two
                F = [f[::-1] if draw(st.booleans()) else list(f) for f in F]
                if len(F) > 1 and draw(st.booleans()):
                    i, j = 0, draw(st.integers(1, len(F) - 1))
                    if F[j][0] not in F[i] and F[i][0] not in F[j]:
                        F[i][0], F[j][0] = F[j][0], F[i][0]
            else:
                F = draw(mesh(n)) if n >= 3 else F
            o['f'] = F
        elif op == 'par':
            a = draw(st.integers(0, 2))
            o['par'] = [a, (a + draw(st.integers(1, 2))) % 3]
        elif op == 'norm':
            o['norm'] = draw(st.booleans())
        c['ops'].append(o)
    return c


def go(kind, c):
    ch, N = _c()
    V, F = np.array(c['v'], dtype=float), np.array(c['f'], dtype=c['ft'])
    par, norm, lead = list(c['par']), c['norm'], c['lead']
    leaf = ch.array(V.copy())
    src = leaf if lead == 1.0 else leaf * lead
    if kind == 'edges':
        o = N.TriEdges(F, par[0], par[1], src)
    elif kind == 'scaled':
        o = N.TriNormalsScaled(src, F)
    elif kind == 'normals':
        o = N.TriNormals(src, F)
    elif kind == 'normalized':
        o = N.NormalizedNx3(src)
    elif norm and not c['given']:
        o = N.VertNormals(src, F)
    else:
        o = N.VertNormals(v=src, f=F, normalized=norm)
    keepF = F.copy()

    def look(read, what):
        if read == 'none':
            return True
        Fi = F.astype(int)
        if len(V) <= Fi.max() and kind != 'normalized':
            return True
        ref = reference(kind, V * lead, Fi, norm if kind == 'vertex' else par)
        shape = V.shape if kind in ('vertex', 'normalized') else (3 * len(F),)
        if kind == 'vertex' and not norm and len(np.unique(Fi)) < len(V):
            label('vertex without a face')
        compare(o, leaf, lead, ref, what, shape, read)
        return bool(np.all(ref[4]))
    good = look(c['read0'], 'at first')
    moved = False
    for i, op in enumerate(c['ops']):
        k = op['op']
        if k == 'x':
            V = np.resize(np.array(op['v'], dtype=float), V.shape)
            leaf.x = V.copy()
        elif k in ('v', 'size'):
            V = np.array(op['v'], dtype=float)
            lead = 1.0
            if op['raw']:
                o.v = V.copy()
                leaf = o.v
            else:
                leaf = ch.array(V.copy())
                o.v = leaf
        elif k == 'f':
            F = np.array(op['f'], dtype=c['ft'])
            keepF = F.copy()
            o.f = F
        elif k == 'par':
            par = op['par']
            o.cplus, o.cminus = par
        elif k == 'norm':
            norm = op['norm']
            o.normalized = norm
        moved |= k in ('x', 'v', 'size')
        label(k)
        good &= look(op['read'], 'after step %d (%s)' % (i + 1, k))
    look('both', 'at the end')
    require(np.array_equal(F, keepF), 'the faces have changed')
    nontrivial(good and moved)


for _kind, _n in (('edges', 700), ('scaled', 900), ('normals', 900), ('normalized', 700), ('vertex', 1600)):
    def _f(c, kind=_kind):
        go(kind, c)
    _f.__doc__ = 'Values and derivatives of the objective over a history of changes.'
    sub('C30', history(_kind), _n, name={'edges': 'tri_edges', 'scaled': 'tri_normals_scaled', 'normals': 'tri_normals', 'normalized': 'normalized_nx3', 'vertex': 'vert_normals'}[_kind], purity=False, prepare=prepare, thorough=30)(_f)
    sub('C30', history(_kind, [129, 257, 300]), 6, name={'edges': 'tri_edges', 'scaled': 'tri_normals_scaled', 'normals': 'tri_normals', 'normalized': 'normalized_nx3', 'vertex': 'vert_normals'}[_kind] + '_many', purity=False, prepare=prepare, shards=2, thorough=10)(_f)


@st.composite
def cross_case(draw):
    n = draw(st.integers(1, 12))
    ops = []
    c = {'a': draw(verts(n)), 'b': draw(verts(n)), 'ops': ops, 'flat': draw(st.booleans())}
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.sampled_from(['a.x', 'b.x', 'a', 'b', 'both']))
        if k == 'both':
            n = draw(st.integers(1, 12))
        ops.append({'op': k, 'v': draw(verts(n)), 'w': draw(verts(n)), 'read': draw(st.sampled_from(['all', 'all', 'value', 'a', 'b', 'none']))})
    return c


@sub('C30', cross_case(), 900, purity=False, prepare=prepare, thorough=30)
def cross_product(c):
    ch, N = _c()
    sh = (lambda x: x.ravel()) if c['flat'] else (lambda x: x)
    a, b = np.array(c['a'], dtype=float), np.array(c['b'], dtype=float)
    la, lb = ch.array(sh(a.copy())), ch.array(sh(b.copy()))
    o = N.CrossProduct(la, lb)

    def look(read, what):
        if read == 'none':
            return
        tol = 1e-12 * (np.abs(a).max(axis=1) * np.abs(b).max(axis=1))[:, np.newaxis] + 1e-300
        if read in ('all', 'value'):
            got = num_array(o.r, what, (a.size,)).reshape(-1, 3)
            require(np.all(np.abs(got - np.cross(a, b)) <= tol), '%s: the cross product of %s and %s is %s', what, short(a.tolist()), short(b.tolist()), short(got.tolist()))
        I = np.eye(a.size).reshape(a.size, -1, 3)
        for name, leaf, want in (('a', la, np.cross(I, b[np.newaxis])), ('b', lb, np.cross(a[np.newaxis], I))):
            if read not in ('all', name):
                continue
            J = o.dr_wrt(leaf)
            require(J is not None, '%s: no derivative by %s', what, name)
            J = num_array(J.toarray() if sp.issparse(J) else J, what, (a.size, a.size))
            want = want.reshape(a.size, a.size).T
            require(np.all(np.abs(J - want) <= 1e-12 * max(np.abs(a).max(), np.abs(b).max())), '%s: the derivative by %s is %s, expected %s', what, name, short(J.tolist()), short(want.tolist()))
    look(['all', 'none'][len(a) % 2], 'at first')
    for i, op in enumerate(c['ops']):
        k = op['op']
        v, w = np.array(op['v'], dtype=float), np.array(op['w'], dtype=float)
        if k == 'a.x':
            a = v
            la.x = sh(a.copy())
        elif k == 'b.x':
            b = v
            lb.x = sh(b.copy())
        if k in ('a', 'both'):
            a = v
            la = ch.array(sh(a.copy()))
            o.a = la
        if k in ('b', 'both'):
            b = w if k == 'both' else v
            lb = ch.array(sh(b.copy()))
            o.b = lb
        label(k)
        look(op['read'], 'after step %d (%s)' % (i + 1, k))
    look('all', 'at the end')
    nontrivial(bool(c['ops']) and np.any(np.cross(a, b)))


@st.composite
def spread_case(draw):
    n = draw(st.integers(3, 8))
    ft = draw(st.sampled_from(['uint8', 'uint16', 'int16', 'uint32', 'int32', 'int64', 'uint64']))
    total = draw(st.sampled_from([20, 86, 128, 200, 256] if ft == 'uint8' else [20, 128, 300, 11000, 32000] if ft == 'int16' else [20, 300, 22000, 65536]))
    if draw(st.booleans()):
        at = sorted(draw(st.lists(st.integers(0, total - 1), min_size=n, max_size=n, unique=True)))
    else:
        at = list(range(total - n, total))
    return {'v': draw(verts(n)), 'f': draw(mesh(n)), 'ft': ft, 'total': total, 'at': at, 'kind': draw(st.sampled_from(['edges', 'scaled', 'normals', 'vertex', 'vertex']))}


@sub('C30', spread_case(), 250, purity=False, prepare=prepare, shards=4, thorough=20)
def vertices_elsewhere(c):
    """A few faces among many vertices, numbered in any integer type which holds the indices, have the normals and derivatives
    which they have alone."""
    ch, N = _c()
    V, F, at = np.array(c['v'], dtype=float), np.array(c['f']), np.array(c['at'])
    kind = c['kind']
    used = np.unique(F)
    W = np.zeros((c['total'], 3))
    W[at] = V
    G = at[F].astype(c['ft'])

    def make(src, f):
        if kind == 'edges':
            return N.TriEdges(f, 2, 0, src)
        return {'scaled': N.TriNormalsScaled, 'normals': N.TriNormals, 'vertex': N.VertNormals}[kind](src, f)
    leaf = ch.array(W.copy())
    o = make(leaf, G)
    ref = reference(kind, V, F, (2, 0) if kind == 'edges' else True)
    r, d, tr, td, ok = ref
    got = num_array(o.r, kind).reshape(-1, 3)
    J = sp.csr_matrix(o.dr_wrt(leaf))
    require(J.shape == (got.size, W.size), 'the derivative has shape %s', J.shape)
    cols = (3 * at[:, np.newaxis] + np.arange(3)).ravel()
    if kind == 'vertex':
        require(len(got) == len(W), '%d normals for %d vertices', len(got), len(W))
        got = got[at]
        J = J[cols]
        ok = ok & np.isin(np.arange(len(V)), used)
    require(got.shape == r.shape, 'the values have shape %s, expected %s', got.shape, r.shape)
    bad = ok & ~(np.abs(got - r).max(axis=1) <= tr)
    require(not np.any(bad), '%s: row %d is %s, expected %s', kind, int(np.argmax(bad)), short(got[np.argmax(bad)].tolist()), short(r[np.argmax(bad)].tolist()))
    inside = J[:, cols].toarray()
    rows = np.repeat(ok, 3)
    rest = abs(J).sum() - np.abs(inside).sum()
    require(not np.all(ok) or abs(rest) <= 1e-9 * np.abs(inside).sum(), '%s: the derivative depends on vertices of no face', kind)
    D = inside.T.reshape(d.shape)
    bad = ok & ~(np.abs(D - d).max(axis=(0, 2)) <= td)
    require(not np.any(bad), '%s: wrong derivative of row %d', kind, int(np.argmax(bad)))
    nontrivial(bool(np.all(ok[used] if kind == 'vertex' else ok)) and c['total'] > 80)
