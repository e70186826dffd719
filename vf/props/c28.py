"""C28 Sparse Cholesky factors satisfy L L^T = S^T A S."""
import gc
import resource

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from blmath.numerics.linalg.lchol import lchol
from .. import gen as g
from .. import cholmod_build
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require, short
from ..registry import sub

D = g.Dictionary(['blmath/numerics/linalg/lchol.py'])
RULE = 'Symmetric matrices of size 1 to 120 (diagonal, tridiagonal, arrow, random sparse, blocks, dense), of integers or floats, rows of a column in any order, with only the lower triangle given or other numbers in the upper one, positive definite and not; the dense product and eigenvalues decide; non-trivial when a column has an entry below the diagonal.'
ASSUMPTIONS = ['no repeated entries within a column', 'matrices whose smallest eigenvalue is within 1e-9 of zero, relative to the largest, are left out',
               'the extension is built from the current source with the address sanitizer if that is available; CHOLMOD itself is not instrumented']


@st.composite
def matrix(draw, lo=1, sizes=None):
    n = draw(st.sampled_from(sizes)) if sizes else draw(g.size(lo, 60, D)) if draw(st.integers(0, 9)) else draw(st.integers(60, 120))
    kind = draw(st.sampled_from(['random', 'random', 'random', 'product', 'diagonal', 'tri', 'arrow', 'dense', 'blocks', 'ring'] if not sizes else ['random', 'random', 'tri', 'arrow', 'blocks', 'ring', 'diagonal']))
    M = np.zeros((n, n))
    if kind == 'random':
        k = draw(st.integers(0, 3 * n))
        i, j = (np.array(list(g.noise(draw, k)), dtype=int) * (1 if n <= 255 else 1 + n // 256) % n for _ in range(2))
        M[i, j] = draw(g.nums(k)) if k else 0
    elif kind == 'product':
        k = draw(st.integers(1, n))
        B = np.array(draw(g.nums(n * k, mode='int'))).reshape(n, k)
        B[np.abs(B) < draw(st.sampled_from([0, 3, 5]))] = 0
        M = np.tril(B.dot(B.T), -1)
    elif kind in ('tri', 'ring'):
        M[np.arange(1, n), np.arange(n - 1)] = draw(g.nums(n - 1))
        if kind == 'ring' and n > 2:
            M[n - 1, 0] = 1.5
    elif kind == 'arrow':
        if draw(st.booleans()):
            M[1:, 0] = draw(g.nums(n - 1))
        else:
            M[n - 1, :n - 1] = draw(g.nums(n - 1))
    elif kind == 'dense':
        M = np.array(draw(g.nums(n * n))).reshape(n, n)
    elif kind == 'blocks':
        b = draw(st.integers(2, 6))
        for s in range(0, n, b):
            e = min(n, s + b)
            M[s:e, s:e] = np.array(draw(g.nums((e - s) ** 2))).reshape(e - s, e - s)
    M = np.tril(M, -1)
    M = M + M.T
    ints = draw(st.integers(0, 3)) == 0
    if ints:
        M = np.round(M)
    # definite by its diagonal, or by the eigenvalues
    row = np.abs(M).sum(axis=1)
    how = draw(st.sampled_from(['dominant', 'dominant', 'shifted', 'shifted', 'indefinite', 'one bad', 'zero', 'negative']))
    extra = np.abs(np.array(draw(g.nums(n)))) + 0.5
    if how in ('shifted', 'indefinite'):
        w = np.linalg.eigvalsh(M)
        s = -w[0] + 0.1 * (w[-1] - w[0]) + 0.1
        if how == 'indefinite':
            s = -w[n // 2] if n > 1 else -1.0
        d = np.full(n, np.ceil(s) if ints and how == 'shifted' else s)
    else:
        d = row + (np.ceil(extra) if ints else extra)
        if how != 'dominant':
            d[draw(st.integers(0, n - 1))] = {'one bad': 1e-3, 'zero': 0.0, 'negative': -2.0}[how]
    if ints:
        d = np.round(d)
    M[np.arange(n), np.arange(n)] = d
    s = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))
    M = M * (s if not ints else draw(st.sampled_from([1, 1, 1, 12345, 7654321])))
    low = np.tril(M)
    r, c = np.nonzero(low)
    return {'n': n, 'r': r.tolist(), 'c': c.tolist(), 'x': low[r, c].tolist(), 'kind': kind, 'how': how, 'int': ints, 'upper': draw(st.sampled_from(['same', 'same', 'none', 'other'])),
            'order': draw(st.sampled_from(['sorted', 'sorted', 'reversed', 'shuffled'])), 'csr': draw(st.integers(0, 5)) == 0, 'dt': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64', 'int32'])),
            'zeros': draw(st.booleans()), 'long': draw(st.booleans())}


def full_max(c):
    return max([abs(x) for x in c['x']] + [0])


def build(c):
    n = c['n']
    low = np.zeros((n, n))
    low[c['r'], c['c']] = c['x']
    dt = np.dtype(c['dt'] if c['int'] or c['dt'].startswith('f') else 'float64')
    if dt == np.int32 and np.abs(full_max(c)) >= 2 ** 31 - 1:
        dt = np.dtype('int64')
    if dt == np.float32:
        low = low.astype(np.float32).astype(np.float64)
    full = low + np.tril(low, -1).T
    pat = full != 0
    give = full.copy()
    csr = c['csr'] and c['upper'] == 'same'
    if c['upper'] != 'same':
        up = np.triu(np.ones((n, n), dtype=bool), 1)
        if c['upper'] == 'none':
            give[up] = 0
            pat[up] = False
        else:
            give[up] = np.where(pat[up], 7.0, 0)
    if c['zeros']:
        pat[np.arange(n), np.arange(n)] = True
        pat[n - 1, 0] = True
        pat[0, n - 1] |= c['upper'] == 'same'
    ind, ptr, data = [], [0], []
    for j in range(n):
        rows = np.flatnonzero(pat[:, j]).tolist()
        if c['order'] == 'reversed':
            rows = rows[::-1]
        elif c['order'] == 'shuffled':
            rows.sort(key=lambda i: (i * 7919 + j * 31) % 101)
        ind += rows
        data += give[rows, j].tolist()
        ptr.append(len(ind))
    it = np.int64 if c['long'] else np.int32
    M = (sp.csr_matrix if csr else sp.csc_matrix)((np.array(data, dtype=dt), np.array(ind, dtype=it), np.array(ptr, dtype=it)), shape=(n, n))
    return full, M


def check(c, full, M, r):
    n = c['n']
    require(isinstance(r, (tuple, list)) and len(r) == 3, 'lchol: not a triple: %s', short(r))
    L, bad, S = r
    require(sp.issparse(L) and sp.issparse(S), 'lchol: not sparse matrices')
    require(S.shape == (n, n), 'S has shape %s', S.shape)
    P = S.toarray()
    require(np.all((P == 0) | (P == 1)) and np.all(P.sum(axis=0) == 1) and np.all(P.sum(axis=1) == 1), 'S is no permutation matrix: %s', short(P.tolist()))
    w = np.linalg.eigvalsh(full)
    big = np.abs(full).max()
    require(L.shape[0] == n, 'L has shape %s', L.shape)
    Ld = L.toarray()
    require(np.all(np.isfinite(Ld)), 'L is not finite')
    require(np.all(Ld[np.triu_indices(n, 1, Ld.shape[1])] == 0), 'L is not lower triangular')
    B = P.T.dot(full).dot(P)
    tol = 1e-13 * n * big
    if w[0] > 1e-9 * max(abs(w[-1]), big):
        equal(int(bad), 0, 'the report for a positive definite matrix (smallest eigenvalue %r)' % w[0])
        require(L.shape == (n, n), 'L has shape %s', L.shape)
        require(np.all(np.diag(Ld) > 0), 'the diagonal of L is %s', short(np.diag(Ld).tolist()))
        close(Ld.dot(Ld.T), B, tol, 'L L^T and S^T A S')
        return 'definite'
    if w[0] < -1e-9 * max(abs(w[-1]), big) or n == 1 and w[0] <= 0:
        p = int(bad)
        require(1 <= p <= n, 'the report for a matrix which is not positive definite (smallest eigenvalue %r): %r', w[0], bad)
        require(L.shape == (n, p - 1), 'L has shape %s, the failure is reported at column %d', L.shape, p)
        require(np.all(np.diag(Ld) > 0), 'the diagonal of L is %s', short(np.diag(Ld).tolist()))
        T = Ld[:p - 1]
        # the tolerance grows with the condition of the block
        k = np.linalg.cond(T) ** 2 if p > 1 else 1.0
        close(T.dot(T.T), B[:p - 1, :p - 1], tol, 'the factor of the leading block of %d' % (p - 1))
        x = np.linalg.solve(T, B[:p - 1, p - 1]) if p > 1 else np.zeros(0)
        pivot = B[p - 1, p - 1] - x.dot(x)
        require(pivot <= 10 * tol * min(k, 1e6), 'column %d is reported, where the pivot is %r', p, pivot)
        return 'not definite'
    return 'semidefinite'


@sub('C28', matrix(), 9000, crashy=True, prepare=cholmod_build.prepare, thorough=20)
def factors(c):
    full, M = build(c)
    before = (M.data.copy(), M.indices.copy(), M.indptr.copy(), M.data.dtype, M.indices.dtype)
    r = call(lchol, M)
    require(M.data.dtype == before[3] and M.indices.dtype == before[4] and np.array_equal(M.data, before[0]) and np.array_equal(M.indices, before[1]) and np.array_equal(M.indptr, before[2]), 'A has changed')
    k = check(c, full, M, r)
    label(k)
    label(c['kind'])
    label('upper: ' + c['upper'])
    nontrivial(len(c['r']) > len(set(c['r'])) and k != 'semidefinite')


@sub('C28', matrix(sizes=[257, 300, 511, 600, 1000]), 24, name='factors_many', crashy=True, purity=False, prepare=cholmod_build.prepare, shards=4, thorough=6)
def factors_many(c):
    factors(c)


@sub('C28', g.rec(c=matrix(), k=st.integers(1, 3)), 24, crashy=True, purity=False, prepare=cholmod_build.prepare, shards=4, thorough=4)
def memory(x):
    """Repeated factorizations do not use up memory: one of 15 runs of 60 must not, by the sanitizer's exact count of allocated bytes (or the resident size)."""
    full, M = build(x['c'])
    if cholmod_build.asan_active():
        import ctypes
        f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
        f.restype = ctypes.c_size_t
        count, limit = lambda: int(f()), 60 * 24
    else:
        count, limit = lambda: resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024, 2 ** 20
    grown = []
    while len(grown) < 15 and (not grown or grown[-1] >= limit):
        gc.collect()
        start = count()
        for _ in range(60):
            lchol(M)
        gc.collect()
        grown.append(count() - start)
    require(grown[-1] < limit, '60 factorizations of a matrix with %d rows use up %d bytes, again and again', x['c']['n'], min(grown))
    label('sanitizer count' if cholmod_build.asan_active() else 'resident size')
    nontrivial()
