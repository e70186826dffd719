"""C26 Array helpers: safe division, scaling, broadcasting, reshaping."""
import operator
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from blmath.numerics import matlab
from blmath.numerics.numpy_ext import np_make_readonly, np_reshape_safe
from blmath.numerics.operations import scale_to_range, zero_safe_divide
from .. import gen as g
from ..core import A, call, close, ctx, equal, exact, fail, label, nontrivial, num_array, raises, require, short
from ..registry import sub

D = g.Dictionary(['blmath/numerics/operations.py', 'blmath/numerics/matlab.py', 'blmath/numerics/numpy_ext.py'])
RULE = 'Arrays of up to four dimensions, of floats or integers, in any memory layout, with zeros, nan and infinite entries for the division, all pairs of matching shapes and of rows and columns; non-trivial when the arrays have different shapes, a quotient is replaced, or the array is not contiguous.'
ASSUMPTIONS = ['scale_to_range of arrays with a single value, and zero_safe_divide of two plain numbers, are outside the domain']

SHAPES = [[1], [3], [5], [2, 3], [3, 1], [1, 3], [4, 3], [1, 1], [2, 3, 2], [1, 3, 2], [2, 1, 1], [2, 2, 3, 2], [0], [0, 3]]


@st.composite
def quotient(draw, shapes=SHAPES):
    s = draw(st.sampled_from(shapes))
    how = draw(st.sampled_from(['same', 'same', 'scalar', 'scalar first', 'ones', 'less']))
    t = list(s)
    if how == 'ones':
        t = [1 if draw(st.booleans()) else d for d in s]
    if how == 'less':
        t = s[draw(st.integers(0, len(s))):]
    a = draw(g.nums(int(np.prod(s)), consts=D))
    b = draw(g.nums(int(np.prod(t)), mode=draw(st.sampled_from(['int', 'mix', None])), consts=D))
    for x in (a, b):
        if x and draw(st.integers(0, 3)) == 0:
            x[draw(st.integers(0, len(x) - 1))] = draw(st.sampled_from(['inf', '-inf', 'nan', 0.0, 1e308, 1e-308, -0.0, 5e-324]))
    return {'a': a, 'b': b, 's': s, 't': t, 'how': how, 'd': draw(st.sampled_from([None, None, 0.0, 1.0, -7.5, 3, 'nan', 1e9])), 'int': draw(st.integers(0, 4)) == 0, 'lay': draw(g.layout), 'pos': draw(st.booleans())}


@sub('C26', quotient([[4097], [10001], [1025, 3], [3, 2000], [300, 300], [20, 20, 30]]), 16, name='divide_many', purity=False, shards=2, thorough=10)
@sub('C26', quotient(), 5000)
def divide(c):
    f = lambda x: [float(y) for y in x]
    a, b = np.array(f(c['a'])).reshape(c['s']), np.array(f(c['b'])).reshape(c['t'])
    dt = np.float64
    if c['int'] and np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and (np.abs(a).max() if a.size else 0) < 1e6 and (np.abs(b).max() if b.size else 0) < 1e6:
        a, b, dt = np.round(a), np.round(b), np.int64
    d = c['d'] if c['d'] is None else float(c['d']) if isinstance(c['d'], str) else c['d']
    args = [A(a, c['lay'], dt), A(b, c['lay'], dt)]
    if c['how'] == 'scalar':
        if not b.size:
            return
        b = b.reshape(-1)[0]
        args[1] = float(b) if dt is np.float64 else int(b)
    elif c['how'] == 'scalar first':
        if not a.size or b.ndim == 0:
            return
        a = a.reshape(-1)[0]
        args[0] = float(a) if dt is np.float64 else int(a)
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return
    r = call(zero_safe_divide, *args) if d is None else call(zero_safe_divide, *args, **{'default_error_value': d}) if not c['pos'] else call(zero_safe_divide, args[0], args[1], d)
    with np.errstate(all='ignore'):
        q = np.asarray(np.true_divide(a, b))
    bad = ~np.isfinite(q)
    want = np.where(bad, 0.0 if d is None else d, q)
    close(r, want, np.where(bad, 0, 1e-15 * np.abs(q)), 'zero_safe_divide with default %r' % d)
    label(c['how'])
    label('replaced' if bad.any() else 'finite')
    nontrivial(bad.any() and not bad.all())


NARROW = ['int64', 'int64', 'uint8', 'int8', 'int16', 'uint16', 'int32']


@sub('C26', g.rec(a=g.points(300, 12000, consts=D), flat=st.booleans(), lo=st.sampled_from([0.0, 1.0, 10]), w=st.sampled_from([1.0, 255, -1.0]), int=st.booleans(), how=st.sampled_from(['array', 'list']), lay=g.layout, dt=st.sampled_from(NARROW)), 16, name='scaling_many', purity=False, shards=2, thorough=10)
@sub('C26', g.rec(a=g.points(1, 40, consts=D), flat=st.booleans(), lo=st.sampled_from([0.0, 1.0, -1.0, 10, 0.25, -100.0, 1e3]), w=st.sampled_from([1.0, 2, 0.5, 255, -1.0, 1e-3, 10.0]), int=st.booleans(), how=st.sampled_from(['array', 'array', 'list']), lay=g.layout, dt=st.sampled_from(NARROW)), 4000)
def scaling(c):
    a = np.array(c['a'])
    if c['flat']:
        a = a.reshape(-1)
    dt = np.float64
    if c['int'] and np.abs(a).max() < 1e6:
        a, dt = np.round(a), np.int64
        if c['dt'] != 'int64' and np.any(a):
            # all of the range of a narrow type, as images use
            dt = np.dtype(c['dt'])
            info = np.iinfo(dt)
            a = np.clip(np.round(a / np.abs(a).max() * info.max + (0 if info.min else info.max // 2)), info.min, info.max)
            label(c['dt'])
    w = a.max() - a.min()
    if w <= 1e-9 * np.abs(a).max():
        return
    lo, hi = c['lo'], c['lo'] + c['w']
    arg = A(a, c['lay'], dt) if c['how'] == 'array' or c['int'] and c['dt'] != 'int64' else a.tolist()
    r = num_array(call(scale_to_range, arg, lo, hi), 'scale_to_range', a.shape)
    tol = 1e-13 * (abs(lo) + abs(hi)) + 1e-14 * abs(hi - lo) * np.abs(a).max() / w
    close(r, lo + (a - a.min()) / w * (hi - lo), 4 * tol, 'scale_to_range')
    close(r.reshape(-1)[np.argmin(a)], lo, 4 * tol, 'the minimum')
    close(r.reshape(-1)[np.argmax(a)], hi, 4 * tol, 'the maximum')
    nontrivial(a.min() != 0 and a.size > 2)


OPERS = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'max': np.maximum, 'lambda': lambda x, y: 2 * x - y, 'operator': operator.sub, 'eq': np.equal}


@sub('C26', g.rec(m=st.one_of(st.integers(1, 5), st.integers(1, 40)), n=st.one_of(st.integers(1, 5), st.integers(1, 40)), kind=st.sampled_from(['same', 'row col', 'col row', 'row', 'col', 'row row', 'col col', 'bad', 'one row', 'one col']), op=st.sampled_from(sorted(OPERS)), x=g.nums(50), swap=st.booleans(), lay=g.layout), 4000)
def broadcasting(c):
    m, n, k = c['m'], c['n'], c['kind']
    s, t = {'same': ((m, n), (m, n)), 'row col': ((1, n), (m, 1)), 'col row': ((m, 1), (1, n)), 'row': ((m, n), (1, n)), 'col': ((m, n), (m, 1)), 'row row': ((1, n), (1, n)), 'col col': ((m, 1), (m, 1)),
            'bad': ((m + 1, m + 2), (m + 2, m + 1)), 'one row': ((1, 1), (m, 1)), 'one col': ((1, 1), (1, n))}[k]
    if c['swap']:
        s, t = t, s
    a, b = np.resize(c['x'], s), np.resize(c['x'][10:] + c['x'][:3], t)
    f = OPERS[c['op']]
    if k == 'bad':
        raises(Exception, matlab.bsxfun, f, A(a, c['lay']), A(b, c['lay']))
        label('rejected')
        return
    r = call(matlab.bsxfun, f, A(a, c['lay']), A(b, c['lay']))
    M, N = max(s[0], t[0]), max(s[1], t[1])
    want = np.array([[f(a[i % s[0], j % s[1]], b[i % t[0], j % t[1]]) for j in range(N)] for i in range(M)], dtype=np.float64)
    got = np.asarray(r)
    require(got.shape == (M, N), 'bsxfun of %s and %s: shape %s', s, t, got.shape)
    exact(got.astype(np.float64), want, 'bsxfun %s of shapes %s and %s' % (c['op'], s, t))
    label(k)
    nontrivial(s != t and M > 1 and N > 1)


@sub('C26', g.rec(shape=st.sampled_from(SHAPES), x=g.nums(24), lay=g.layout, int=st.booleans()), 1500, shards=2)
def rows(c):
    a = np.array(c['x'][:int(np.prod(c['shape']))]).reshape(c['shape'])
    if not a.size:
        return
    arg = A(np.round(a) if c['int'] else a, c['lay'], np.int64 if c['int'] else np.float64)
    exact(call(matlab.row, arg), np.array(arg, dtype=float).reshape(1, a.size), 'row')
    exact(call(matlab.col, arg), np.array(arg, dtype=float).reshape(a.size, 1), 'col')
    nontrivial(a.ndim > 1)


@sub('C26', g.rec(m=st.integers(1, 7), n=st.integers(1, 7), i=st.binary(max_size=12).map(list), j=st.binary(min_size=12, max_size=12).map(list), x=g.nums(12, mode='half'), shape=st.booleans(), two=st.booleans(), kw=st.booleans(), int=st.booleans()), 3000)
def sparse(c):
    k = len(c['i'])
    i = np.array([b % c['m'] for b in c['i']], dtype=np.int64)
    j = np.array([b % c['n'] for b in c['j']], dtype=np.int64)[:k]
    x = np.array(c['x'][:k])
    if c['int']:
        x = np.round(x).astype(np.int64)
    if not c['shape'] and k == 0:
        return
    if c['shape'] and c['two'] and len(c['x']) % 2 == 0 and (k == 0 or c['m'] == c['n']):
        # no rows, or no columns
        e = np.array([], dtype=np.int64)
        for m, n in ((0, c['n']), (c['m'], 0), (0, 0)):
            r = call(matlab.sparse, e, e, np.array([]), m, n)
            require(sp.issparse(r) and tuple(r.shape) == (m, n) and r.nnz == 0, 'sparse of shape %r: %s', (m, n), short(r))
        label('empty')
        if k == 0:
            return
    m, n = (c['m'], c['n']) if c['shape'] else (int(i.max()) + 1, int(j.max()) + 1)
    want = np.zeros((m, n))
    for p, q, d in zip(i, j, x):
        want[p, q] += d
    I, J = i.copy(), j.copy()
    if c['two'] and k % 2 == 0 and k:
        I, J = I.reshape(2, -1), J.reshape(2, -1)
    r = call(matlab.sparse, I, J, x, m, n) if c['shape'] and not c['kw'] else call(matlab.sparse, I, J, x, m=m, n=n) if c['shape'] else call(matlab.sparse, I, J, x)
    require(sp.issparse(r), 'sparse: %s', short(r))
    equal(tuple(r.shape), (m, n), 'sparse: shape')
    exact(r.toarray(), want, 'sparse')
    exact(r.dot(np.arange(1.0, n + 1)), want.dot(np.arange(1.0, n + 1)), 'sparse times a vector')
    nontrivial(k >= 2)


@sub('C26', g.rec(m=st.sampled_from([2 ** 16, 2 ** 17 + 1, 2 ** 20, 2 ** 31 - 2, 100000]), n=st.sampled_from([1, 7, 2 ** 16, 2 ** 16 + 1, 2 ** 20]), at=st.lists(st.tuples(st.integers(0, 2 ** 31), st.integers(0, 2 ** 31), st.integers(-9, 9)).map(list), max_size=8), twice=st.booleans()), 200, shards=1)
def sparse_large(c):
    """Matrices with more places than 32-bit numbers."""
    m, n = c['m'], c['n']
    at = [(i % m, j % n, float(x)) for i, j, x in c['at']]
    if c['twice']:
        at = at + at[:2]
    want = {}
    for i, j, x in at:
        want[i, j] = want.get((i, j), 0.0) + x
    i, j = np.array([a[0] for a in at], dtype=np.int64), np.array([a[1] for a in at], dtype=np.int64)
    r = call(matlab.sparse, i, j, np.array([a[2] for a in at]), m, n)
    require(sp.issparse(r), 'sparse: %s', short(r))
    equal(tuple(r.shape), (m, n), 'sparse: shape')
    k = r.tocoo()
    got = {(int(a), int(b)): float(x) for a, b, x in zip(k.row, k.col, k.data) if x}
    equal(got, {p: x for p, x in want.items() if x}, 'sparse: entries')
    nontrivial(len(at) > 1)


@st.composite
def reshaping(draw):
    s = draw(st.sampled_from([[6], [2, 3], [3, 2], [12], [3, 4], [4, 3], [2, 3, 2], [1, 6], [2, 2, 3, 1], [1], [8, 3]]))
    n = int(np.prod(s))
    t = draw(st.sampled_from([[n], [1, n], [n, 1], [-1], [-1, 1]] + ([[n // 2, 2], [2, n // 2], [-1, 2]] if n % 2 == 0 else []) + ([[3, n // 3], [-1, 3], [n // 3, 3]] if n % 3 == 0 else []) + [s, s[::-1]]))
    if draw(st.integers(0, 7)) == 0:
        t = [n + 1]
    return {'s': s, 't': t, 'lay': draw(st.sampled_from(['c', 'f', 's', 'r', 'ro', 't', 'rows', 'cols'])), 'warn': draw(st.booleans()), 'int': draw(st.booleans()), 'tuple': draw(st.booleans())}


def lay_out(a, how):
    if how == 't':
        return np.array(a.T, order='C').T
    if how == 'rows':
        return np.repeat(a, 2, axis=0)[::2]
    if how == 'cols':
        return np.repeat(a, 2, axis=-1)[..., ::2]
    return A(a, how, a.dtype)


@sub('C26', reshaping(), 4000)
def reshape(c):
    s = tuple(c['s'])
    a = np.arange(int(np.prod(s)), dtype=np.int64 if c['int'] else np.float64).reshape(s) * 3 + 1
    x = lay_out(a, c['lay'])
    t = tuple(c['t'])
    arg = t if c['tuple'] else list(t) if len(t) > 1 else t
    n = a.size
    if np.prod([d for d in t if d != -1]) * (1 if -1 not in t else n // np.prod([d for d in t if d != -1])) != n:
        raises(ValueError, np_reshape_safe, x, arg)
        raises(ValueError, np_reshape_safe, x, arg, just_warn=True)
        label('wrong size')
        return
    plain = x.reshape(t)
    viewable = np.shares_memory(plain, x)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if viewable:
            # (shared memory cannot be seen through the copies which the purity sweep makes)
            r = np_reshape_safe(x, arg, just_warn=True) if c['warn'] else np_reshape_safe(x, arg)
        elif c['warn']:
            r = call(np_reshape_safe, x, arg, just_warn=True)
        else:
            raises((AttributeError, ValueError), np_reshape_safe, x, arg, _what='np_reshape_safe which needs a copy')
            label('rejected')
            nontrivial()
            require(x.shape == s, 'the array was reshaped itself')
            return
    mine = [m for m in w if 'reshape' in str(m.message).lower() and 'copy' in str(m.message).lower()]
    require(isinstance(r, np.ndarray) and r.shape == plain.shape, 'shape %s, expected %s', getattr(r, 'shape', None), plain.shape)
    exact(r, a.reshape(t), 'np_reshape_safe')
    require(x.shape == s, 'the array was reshaped itself')
    if viewable:
        require(np.shares_memory(r, x), 'the result does not share the data')
        require(not mine, 'a warning for a view: %s', [str(m.message) for m in mine])
        if x.flags.writeable:
            r[...] = -5
            require(np.all(x == -5), 'writing to the view does not change the array')
        label('view')
    else:
        require(len(w) >= 1, 'no warning for a copy')
        require(not np.shares_memory(r, x), 'shared')
        label('copy')
    nontrivial(not x.flags.c_contiguous)


@sub('C26', g.rec(k=st.lists(st.sampled_from(['array', 'int array', 'list', 'none', 'number', 'view', '0d', 'empty', 'full view', 'transposed', 'raveled', 'row', 'twice']), max_size=6), as_=st.sampled_from(['list', 'tuple'])), 1000, shards=2, purity=False)
def readonly(c):
    make = {'array': lambda: np.arange(4.0), 'int array': lambda: np.arange(6).reshape(2, 3), 'list': lambda: [1, 2], 'none': lambda: None, 'number': lambda: 3.5, 'view': lambda: np.arange(10.0)[::2], '0d': lambda: np.array(1.0), 'empty': lambda: np.zeros(0),
            'full view': lambda: bases[-1][:], 'transposed': lambda: bases[-1].T, 'raveled': lambda: bases[-1].reshape(-1), 'row': lambda: bases[-1][1], 'twice': lambda: bases[0]}
    bases = [np.array([[0.0, 1.0, 2.0], [3.0, 4.0, 5.0]]) for _ in range(2)]
    items = [make[k]() for k in c['k']]
    others = [make[k]() for k in c['k'] if k != 'twice']
    given = set(id(x) for x in items)
    before = [np.array(x) if isinstance(x, np.ndarray) else x for x in items]
    call(np_make_readonly, items if c['as_'] == 'list' else tuple(items))
    for x, b in zip(items, before):
        if isinstance(x, np.ndarray):
            require(not x.flags.writeable, 'an array is still writeable')
            try:
                x[...] = 1
            except ValueError:
                pass
            else:
                fail('an array can still be written')
            require(np.array_equal(x, b), 'an array has changed')
        else:
            require(x == b, 'an item has changed')
    for x in others:
        require(not isinstance(x, np.ndarray) or x.flags.writeable, 'another array became readonly')
    for x in bases:
        require(x.flags.writeable == (id(x) not in given), 'the array behind a view: writeable is %r', x.flags.writeable)
    nontrivial(len(items) > 1)
