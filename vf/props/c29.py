"""C29 Block-sparse matrices act as the matrix, and CG solves the system."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from blmath.numerics.linalg.sparse_cg import block_sparse_cg_solve
from blmath.numerics.linalg.static_block_sparse_matrix import StaticBlockSparseMatrix, mask_sparse_matrix, mask_sparse_matrix_by_columns, mask_sparse_matrix_by_rows
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, require, short
from ..registry import sub

D = g.Dictionary(['blmath/numerics/linalg/static_block_sparse_matrix.py'])
RULE = 'Matrices from 1 by 1 to 80 by 80 in every sparse format and dense, of integers and floats, with empty rows, full rows and columns, repeated entries and stored zeros, split by any threshold or explicit masks, against the dense product; symmetric positive definite systems up to 1100 unknowns, of condition at most 1e4, with right-hand sides of any size, zero ones, and starts from zero, the solution and anywhere; non-trivial when both sparse and dense rows or columns occur, or the system is not diagonal.'
ASSUMPTIONS = ['explicit masks are boolean arrays, or empty for all sparse', 'block_sparse_cg_solve is held to the default tolerance of scipy\'s cg, 1e-5 of the right-hand side']
FORMATS = ['csr', 'csr', 'csc', 'csc', 'coo', 'bsr', 'lil', 'dok', 'csr_array', 'coo_array', 'dense']


@st.composite
def pattern(draw, lo=1, square=False):
    r = draw(g.size(lo, 80, D))
    c = r if square else draw(g.size(lo, 80, D))
    k = draw(st.integers(0, min(300, r * c)))
    buf = np.frombuffer(draw(st.binary(min_size=2 * k, max_size=2 * k)), dtype=np.uint8).astype(int)
    i, j = (buf[0::2] * 7) % r, (buf[1::2] * 11) % c
    x = draw(g.nums(k))
    ent = [[int(a), int(b), v] for a, b, v in zip(i, j, x)]
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.booleans()):
            row = draw(st.integers(0, r - 1))
            ent += [[row, b, float(1 + (b * 3 + row) % 7)] for b in range(c)]
        else:
            col = draw(st.integers(0, c - 1))
            ent += [[a, col, float(1 + (a * 5 + col) % 9)] for a in range(r)]
    if not draw(st.booleans()):
        ent = [[a, b, v] for (a, b), v in {(a, b): v for a, b, v in ent}.items()]
    dt = draw(st.sampled_from(['float64', 'float64', 'float64', 'int64', 'float32']))
    return {'r': r, 'c': c, 'e': ent, 'dt': dt, 'f': draw(st.sampled_from(FORMATS))}


def build(c):
    e = c['e']
    dt = np.dtype(c['dt'])
    i = np.array([x[0] for x in e], dtype=int)
    j = np.array([x[1] for x in e], dtype=int)
    x = np.array([x[2] for x in e], dtype=np.float64)
    if dt.kind == 'i':
        x = np.round(x)
    elif dt == np.float32:
        x = np.round(x * 64) / 64
    M = np.zeros((c['r'], c['c']))
    np.add.at(M, (i, j), x)
    f = c['f']
    S = sp.coo_matrix((x.astype(dt), (i, j)), shape=M.shape)
    if f == 'dense':
        S = M.astype(dt)
    elif f.endswith('_array'):
        S = getattr(sp, f)(S)
    else:
        S = S.asformat(f)
    return M, S


@st.composite
def split(draw):
    how = draw(st.sampled_from(['default', 'threshold', 'threshold', 'rows', 'columns', 'both', 'both', 'none']))
    return {'how': how, 't': draw(st.sampled_from([0.05, 0.1, 0.125, 0.25, 0.5, 0.75, 1.0, 0.0, 0.02, 2.0])), 'bits': draw(st.binary(min_size=20, max_size=20).map(list)),
            'empty': draw(st.booleans())}


def masks(s, shape):
    bits = np.unpackbits(np.array(s['bits'], dtype=np.uint8)).astype(bool)
    row = bits[:shape[0]].copy()
    col = bits[80:80 + shape[1]].copy()
    kw = {}
    how = s['how']
    if how == 'threshold':
        kw['sparsity_threshold'] = s['t']
    if how in ('rows', 'both'):
        kw['row_sparsity'] = row
    if how in ('columns', 'both'):
        kw['column_sparsity'] = col
    if how == 'none':
        row[...], col[...] = True, True
        kw['row_sparsity'] = row if not s['empty'] else np.zeros(0, dtype=bool)
        kw['column_sparsity'] = col if not s['empty'] else []
    return kw, row if how in ('rows', 'both', 'none') else None, col if how in ('columns', 'both', 'none') else None


def products(M, S, kw, xs, row, col, how, canonical):
    r, c = M.shape
    B = call(StaticBlockSparseMatrix, S, **kw)
    equal(tuple(B.shape), (r, c), 'shape')
    # the classification
    for name, n, sm, dm, si, di, ns, nd in (('row', r, B.row_sparsity, B.row_density, B.sparse_row_indices, B.dense_row_indices, B.num_sparse_rows, B.num_dense_rows),
                                            ('column', c, B.column_sparsity, B.column_density, B.sparse_column_indices, B.dense_column_indices, B.num_sparse_columns, B.num_dense_columns)):
        sm, dm = np.asarray(sm), np.asarray(dm)
        require(sm.shape == (n,) and dm.shape == (n,) and sm.dtype == bool and dm.dtype == bool, '%s classification: %s', name, short((sm, dm)))
        require(np.all(sm != dm), 'the %s classification is no partition: %s', name, short((sm.tolist(), dm.tolist())))
        exact(si, np.flatnonzero(sm), 'sparse %s indices' % name)
        exact(di, np.flatnonzero(dm), 'dense %s indices' % name)
        equal(int(ns), int(sm.sum()), 'number of sparse %ss' % name)
        equal(int(nd), int(dm.sum()), 'number of dense %ss' % name)
        want = row if name == 'row' else col
        if want is not None:
            exact(sm, want, '%s sparsity' % name)
        elif canonical:
            t = kw.get('sparsity_threshold', 0.05) * max(r, c)
            num = (M != 0).sum(axis=1 if name == 'row' else 0)
            far = np.abs(num - t) > 1e-9
            exact(sm[far], (num < t)[far], '%s sparsity by the threshold %r' % (name, t))
    rs, rd, cs, cd = B.sparse_row_indices, B.dense_row_indices, B.sparse_column_indices, B.dense_column_indices
    big = np.abs(M).max()
    for name, block, want in (('sparse_block', B.sparse_block, M[np.ix_(rs, cs)]), ('block_sd', B.block_sd, M[np.ix_(rs, cd)]), ('block_ds', B.block_ds, M[np.ix_(rd, cs)]), ('block_dd', B.block_dd, M[np.ix_(rd, cd)])):
        block = block.toarray() if sp.issparse(block) else np.asarray(block)
        close(block, want, 1e-5 * big if B.M.dtype == np.float32 else 1e-12 * big, name)
    eps = 1e-4 if S.dtype == np.float32 else 1e-12
    v = A(xs['v'], xs['lay'])
    m = np.array(xs['m']).reshape(c, -1)
    if xs['int']:
        v, m = np.round(v).astype(np.int64), np.round(m).astype(np.int64)
    tol = eps * (np.abs(M).dot(np.abs(v)) + big)
    close(call(B.matvec, v), M.dot(v), tol, 'matvec', ndarray=True)
    close(call(B.matvec, v[:, np.newaxis]), M.dot(v)[:, np.newaxis], tol[:, np.newaxis], 'matvec of a column', ndarray=True)
    tolm = eps * (np.abs(M).dot(np.abs(m)) + big)
    close(call(B.matmat, m), M.dot(m), tolm, 'matmat')
    op = call(getattr, B, 'linOp')
    equal(tuple(op.shape), (r, c), 'the shape of linOp')
    if S.dtype != np.int64 or not xs['int']:
        v, m = v.astype(float), m.astype(float)
    close(op.matvec(v), M.dot(v), tol, 'linOp.matvec')
    close(op.matmat(m), M.dot(m), tolm, 'linOp.matmat')
    close(op.dot(v), M.dot(v), tol, 'linOp.dot')
    for name, got, want, t in (('MMT', call(B.MMT), M.dot(M.T), np.abs(M).dot(np.abs(M.T))), ('MTM', call(B.MTM), M.T.dot(M), np.abs(M.T).dot(np.abs(M)))):
        got = got.toarray() if sp.issparse(got) else np.asarray(got)
        close(got, want, eps * (t + big * big), name)
    return B


@st.composite
def acase(draw):
    p = draw(pattern())
    k = draw(st.integers(1, 3))
    return {'p': p, 's': draw(split()), 'x': {'v': draw(g.nums(p['c'])), 'm': draw(g.nums(p['c'] * k)), 'lay': draw(g.layout), 'int': draw(st.integers(0, 3)) == 0}}


@sub('C29', acase(), 6000, thorough=30)
def acts_as_the_matrix(c):
    M, S = build(c['p'])
    kw, row, col = masks(c['s'], M.shape)
    before = {k: np.array(v, copy=True) for k, v in kw.items()}
    keep = S.copy()
    # bsr stores whole blocks, with zeros
    canonical = c['p']['f'] != 'bsr' and len({(a, b) for a, b, _ in c['p']['e']}) == len(c['p']['e']) and np.count_nonzero(M) == len(c['p']['e']) or c['p']['f'] == 'dense'
    B = products(M, S, kw, c['x'], row, col, c['s']['how'], canonical)
    for k in kw:
        require(np.array_equal(kw[k], before[k]), '%s has changed', k)
    a, b = (keep.toarray(), S.toarray()) if sp.issparse(S) else (keep, S)
    require(np.array_equal(a, b) and a.dtype == b.dtype, 'the matrix has changed')
    label('rows: %s, columns: %s' % tuple('mixed' if s and d else 'sparse' if s else 'dense' for s, d in ((B.num_sparse_rows, B.num_dense_rows), (B.num_sparse_columns, B.num_dense_columns))))
    label(c['p']['f'])
    nontrivial((B.num_sparse_rows and B.num_dense_rows or B.num_sparse_columns and B.num_dense_columns) and np.any(M))


@sub('C29', g.rec(p=st.one_of(pattern(), pattern(), pattern(lo=65)), bits=st.binary(min_size=20, max_size=20).map(list), whole=st.booleans(), only=st.integers(0, 8), spread=st.sampled_from([0, 0, 3, 10, 20, 100])), 1000)
def masks_keep(c):
    """The masks for rows and columns keep the entries which they mark, and where they are."""
    # entries of different orders of magnitude
    p = dict(c['p'], f='csr' if c['p']['f'] == 'dense' else c['p']['f'])
    spread = c['spread'] if p['dt'] == 'float64' else 0
    if spread:
        p['e'] = [[a, b, x * 10.0 ** (spread * ((7 * a + 5 * b) % 5 - 2) / 2)] for a, b, x in p['e']]
    M, S = build(p)
    added = build(dict(p, e=[[a, b, abs(x)] for a, b, x in p['e']]))[0]      # entries given several times may cancel
    bits = np.unpackbits(np.array(c['bits'], dtype=np.uint8)).astype(bool)
    row, col = bits[:M.shape[0]].copy(), bits[80:80 + M.shape[1]].copy()
    if c['whole']:
        row[...] = True
    elif c['only'] < 5:
        # the fullest row or column alone, or both; or one of them with all of the other
        for mask, axis, k in ((row, 1, 0), (col, 0, 1)):
            if c['only'] in (k, k + 3, 2):
                mask[...] = False
                mask[np.argmax(np.count_nonzero(M, axis=axis))] = True
            elif c['only'] > 2:
                mask[...] = True
    tol = 1e-5 * np.abs(M).max() if S.dtype == np.float32 else 1e-12 * np.abs(M).max()
    todo = [(mask_sparse_matrix_by_rows, (row,), M * row[:, np.newaxis]), (mask_sparse_matrix_by_columns, (col,), M * col)]
    if np.any(row) and np.any(col):
        todo.append((mask_sparse_matrix, (row, col), M * row[:, np.newaxis] * col))
    for fn, args, want in todo:
        r = call(fn, S, *args)
        require(sp.issparse(r), '%s: %s', fn.__name__, short(r))
        require(r.dtype == S.dtype, '%s: %s became %s', fn.__name__, S.dtype, r.dtype)
        close(r.toarray(), want, 1e-12 * added if spread else tol, fn.__name__)
    nontrivial(np.any(row) and np.any(col) and not np.all(row) and np.any(M))


@st.composite
def spd(draw):
    """A = sum over entries of a symmetric pattern, made definite by its diagonal."""
    p = draw(pattern(square=True))
    n = p['r']
    return {'p': p, 's': draw(split()), 'd': [1.0 + abs(x) for x in draw(g.nums(n))], 'b': draw(g.nums(n)), 'sb': draw(st.sampled_from([1.0, 1.0, 0.0, 1e-3, 1e4, 1e7])),
            'start': draw(st.sampled_from(['default', 'zero', 'solution', 'any', 'any', 'near'])), 'x0': draw(g.nums(n)), 'tol': draw(st.sampled_from([None, None, 1e-9, 1e-6, 1e-3, 1e-11])),
            'max': draw(st.sampled_from([None, None, None, 1, 2, 5, 500])), 'int': draw(st.booleans()), 'dom': draw(st.sampled_from([1.05, 2.0, 10.0]))}


def spd_matrix(c):
    M, _ = build(dict(c['p'], f='dense'))
    M = np.tril(M, -1)
    M = M + M.T
    d = np.abs(M).sum(axis=1) * c['dom'] + np.array(c['d'])
    if c['p']['dt'] == 'int64':
        d = np.ceil(d)
    elif c['p']['dt'] == 'float32':
        d = np.ceil(d * 64) / 64
    M[np.arange(len(M)), np.arange(len(M))] = d
    dt = np.dtype(c['p']['dt'] if c['p']['dt'] != 'float32' else 'float64')
    f = c['p']['f']
    S = M.astype(dt) if f == 'dense' else getattr(sp, f)(sp.coo_matrix(M.astype(dt))) if f.endswith('_array') else sp.coo_matrix(M.astype(dt)).asformat(f)
    return M, S


@sub('C29', spd(), 6000, thorough=30)
def conjugate_gradients(c):
    M, S = spd_matrix(c)
    n = len(M)
    kw, row, col = masks(c['s'], M.shape)
    B = call(StaticBlockSparseMatrix, S, **kw)
    b = np.array(c['b']) * c['sb']
    if c['int']:
        b = np.round(b).astype(np.int64)
    sol = np.linalg.solve(M, b)
    w = np.linalg.eigvalsh(M)
    kappa = w[-1] / w[0]
    start = c['start']
    x0 = {'default': None, 'zero': np.zeros(n), 'solution': sol.copy(), 'any': np.array(c['x0']), 'near': sol + 1e-13 * np.array(c['x0'])}[start]
    k = {}
    if x0 is not None:
        k['x0'] = x0
    if c['tol'] is not None:
        k['tol'] = c['tol']
    if c['max'] is not None:
        k['maxiter'] = c['max']
    keep = None if x0 is None else x0.copy()
    r = call(B.conjGradSolve, b, **k)
    require(isinstance(r, (tuple, list)) and len(r) == 2, 'conjGradSolve: not a pair: %s', short(r))
    x, it = num_array(r[0], 'the solution', (n,)), r[1]
    require(x0 is None or np.array_equal(x0, keep), 'the start has changed')
    require(np.all(np.isfinite(x)), 'the solution is %s', short(x.tolist()))
    tol = c['tol'] if c['tol'] is not None else 1e-9
    most = c['max'] if c['max'] else n
    require(int(it) == it and 0 <= it < most, 'the number of iterations is %r of at most %r', it, most)
    s0 = np.zeros(n) if x0 is None else x0
    noise = 1e-13 * n * (w[-1] * (np.abs(x).max() + np.abs(s0).max()) + np.abs(b).max())
    res = np.linalg.norm(b - M.dot(x))
    steps = int(it) + 1
    # the bound of Chebyshev for the error in the norm of A
    a_norm = lambda e: np.sqrt(max(0.0, e.dot(M.dot(e))))
    q = (np.sqrt(kappa) - 1) / (np.sqrt(kappa) + 1)
    bound = min(2 * q ** steps, 1.0) * a_norm(s0 - sol)
    if steps < most:
        require(res <= tol + noise, 'conjGradSolve ended after %d steps with the residual %r, tolerance %r', steps, res, tol)
        label('reached the tolerance')
    else:
        require(res <= tol or a_norm(x - sol) <= 1.01 * bound + noise / np.sqrt(w[0]), 'after %d steps, the error is %r, where at most %r is due', steps, a_norm(x - sol), bound)
        label('used all steps')
    label('start: ' + start)
    nontrivial(np.any(np.tril(M, -1)) and np.any(b))


@st.composite
def system(draw, large=False):
    c = draw(spd())
    c['p']['f'] = draw(st.sampled_from(['csr', 'csr', 'csc', 'csc', 'coo', 'csr_array', 'csc_array']))
    c['zero'] = draw(st.lists(st.integers(0, c['p']['r'] - 1), max_size=3)) if draw(st.booleans()) else []
    c['col'] = draw(st.booleans())
    c['spread'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    if large:
        c['n'] = draw(st.sampled_from([999, 1000, 1001, 1002, 1010, 1050, 1100]))
        c['full'] = draw(st.lists(st.integers(0, 998), min_size=1, max_size=4, unique=True))
        c['val'] = draw(st.sampled_from([0.01, 0.001, -0.01, 1e-9, 1e-13]))
        c['short'] = draw(st.integers(0, 3))
        c['pull'] = draw(st.sampled_from([None, None, 1.0, 3.0]))
    return c


def solve(c, M):
    f = c['p']['f']
    dt = np.int64 if np.all(M == np.round(M)) and c['p']['dt'] == 'int64' else np.float64
    S = sp.coo_matrix(M.astype(dt))
    S = getattr(sp, f)(S) if f.endswith('_array') else S.asformat(f)
    b = np.resize(np.array(c['b']) * c['sb'], len(M))
    b[np.all(M == 0, axis=0)] = 0
    if c['int']:
        b = np.round(b)
    keep, kb = S.toarray(), b.copy()
    x = call(block_sparse_cg_solve, S, b[:, np.newaxis] if c['col'] else b)
    x = num_array(x, 'block_sparse_cg_solve')
    require(x.shape in ((len(M),), (len(M), 1)), 'the solution has shape %s', x.shape)
    x = x.ravel()
    require(np.all(np.isfinite(x)), 'the solution is %s', short(x.tolist()))
    require(np.array_equal(keep, S.toarray()) and np.array_equal(kb, b), 'the arguments have changed')
    res = np.linalg.norm(M.dot(x) - b)
    noise = 1e-13 * len(M) * np.abs(M).max() * (np.abs(x).max() if len(x) else 0)
    require(res <= 1.1e-5 * np.linalg.norm(b) + noise, 'the residual is %r, of the right-hand side %r', res, np.linalg.norm(b))
    nontrivial(np.any(np.tril(M, -1)) and np.any(b))
    return b


@sub('C29', system(), 3000, thorough=30)
def block_cg(c):
    M, _ = spd_matrix(c)
    if c['spread'] and c['p']['dt'] != 'int64':
        # unknowns of very different sizes
        d = 10.0 ** (c['spread'] * np.array([1, -1, 0, 0.5, -0.7])[np.arange(len(M)) % 5])
        M = M * d * d[:, None]
    M[c['zero']] = 0
    M[:, c['zero']] = 0
    solve(c, M)
    label('zero columns' if c['zero'] else 'no zero columns')


@sub('C29', system(large=True), 96, purity=False, shards=8, thorough=10)
def block_cg_large(c):
    """From 1000 entries a column counts as dense."""
    M0, _ = spd_matrix(c)
    n, k = c['n'], c['p']['r']
    M = np.zeros((n, n))
    for s in range(0, n, k):
        e = min(n, s + k)
        M[s:e, s:e] = M0[:e - s, :e - s]
    for j in c['full']:
        M[j, :n - c['short']] += c['val']
        M[:n - c['short'], j] += c['val']
    M[np.arange(n), np.arange(n)] = 0
    M[np.arange(n), np.arange(n)] = np.abs(M).sum(axis=1) * 1.05 + (1.0 if not c['spread'] else 10.0 ** -c['spread'])
    if c.get('pull') and len(c['full']) > 1:
        # two dense columns which pull against each other, so that the entries of one among the dense rows add to less than nothing
        i, j = c['full'][:2]
        w = np.zeros(n)
        w[[i, j]] = 1.0, -(M[i, i] + 1.0 + c['pull'])
        M += np.outer(w, w)
        label('dense columns with a negative sum')
    M[c['zero']] = 0
    M[:, c['zero']] = 0
    solve(c, M)
    label('%d dense columns' % ((M != 0).sum(axis=0) >= 1000).sum())
