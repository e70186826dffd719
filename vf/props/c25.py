"""C25 Numeric coercion accepts exactly the documented inputs."""
from decimal import Decimal
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from blmath.numerics import as_numeric_array, is_empty_arraylike, isnumeric, isnumericarray, isnumericscalar
from .. import gen as g
from ..core import A, call, equal, exact, fail, label, nontrivial, num_array, raises, require, short
from ..registry import sub

RULE = 'Arrays and nested sequences of up to four dimensions, with requested shapes which match, match when transposed, or do not, any dtype, None and empty ones, and scalars and arrays of text, bools, complex, nan, infinite, None, Decimal and other content; non-trivial when the array has at least two dimensions or the content is not plain numbers.'
ASSUMPTIONS = ['lists which mix bools with numbers, and numbers as text with a requested dtype, are left out']


@st.composite
def request(draw):
    nd = draw(st.sampled_from([0, 1, 1, 2, 2, 2, 3, 4]))
    shape = [draw(st.sampled_from([1, 2, 3, 3, 3, 4, 7, 0] if nd else [1])) for _ in range(nd)]
    square = nd == 2 and draw(st.integers(0, 4)) == 0
    if square:
        shape = [3, 3]
    n = int(np.prod(shape)) if nd else 1
    dt = draw(st.sampled_from([None, None, 'float64', 'float32', 'int64', 'uint64', 'int32', 'uint8']))
    if dt is not None and 'f' not in dt:
        x = [abs(a) for a in draw(g.nums(n, mode='int'))]
    else:
        x = draw(g.nums(n, mode=draw(st.sampled_from(['int', 'half', 'wide']))))
    how = draw(st.sampled_from(['none', 'same', 'wild', 'transposed', 'wild transposed', 'wrong size', 'wrong dims', 'any']))
    want = list(shape)
    if 'transposed' in how:
        want = want[::-1]
    if 'wild' in how:
        want = [-1 if draw(st.booleans()) else d for d in want]
    if how == 'wrong size' and want:
        want[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1, 2]))
        want = [max(0, d) for d in want]
    if how == 'wrong dims':
        k = draw(st.integers(0, 2))
        want = want + [1] if k == 0 else [-1] + want if k == 1 else want[1:] if want else [1, 1]
    if how == 'any':
        want = [draw(st.sampled_from([-1, 1, 2, 3])) for _ in range(draw(st.integers(0, 3)))]
    if square:
        how, want = 'square', draw(st.sampled_from([[-1, 3], [-1, 3], [3, -1], [3, 3], [-1, -1]]))
    return {'x': x, 'shape': shape, 'want': None if how == 'none' else want, 'dtype': dt, 'as': draw(st.sampled_from(['array', 'array', 'list', 'tuple', 'int array', 'rows', 'objects'])), 'lay': draw(g.layout),
            'none': draw(st.booleans()), 'empty': draw(st.booleans()), 'poison': draw(st.sampled_from([None] * 9 + ['nan', 'inf', 'text', 'None', 'complex', 'bool', 'ragged', 'dict']))}


def fits(want, shape):
    return all(w == -1 or w == d for w, d in zip(want, shape))


def tuples(x):
    return tuple(tuples(y) for y in x) if isinstance(x, list) else x


@sub('C25', request(), 6000)
def coerce(c):
    shape = tuple(c['shape'])
    base = np.array(c['x']).reshape(shape)
    a = base
    how = c['as']
    if how == 'array':
        a = A(base, c['lay'])
    elif how == 'int array':
        base = np.round(base)
        a = A(base, c['lay'], np.int64)
    elif how == 'objects':
        # an array of Python numbers
        a = base.astype(object)
        if np.all(base == np.round(base)) and len(c['x']) % 2:
            a = np.array([int(v) for v in base.ravel()], dtype=object).reshape(shape)
    elif how == 'rows' and base.ndim > 1:
        a = list(base)
    else:
        a = base.tolist()
        a = tuples(a) if how == 'tuple' else a
    if base.ndim > 1 and base.size == 0 and not isinstance(a, np.ndarray):
        return
    kw = {}
    if c['want'] is not None:
        kw['shape'] = tuple(c['want'])
    if c['dtype']:
        kw['dtype'] = np.dtype(c['dtype']).type
    if c['none']:
        kw['allow_none'] = True
    if c['empty']:
        kw['empty_as_none'] = True
    what = 'as_numeric_array of %s %s with %r' % (how, shape, kw)
    p = c['poison']
    if p and base.size and base.ndim:
        bad = {'nan': np.nan, 'inf': -np.inf, 'text': 'a', 'None': None, 'complex': 1 + 2j}
        if p in bad:
            if p == 'complex' and c['dtype']:
                return
            a = base.astype(object)
            a.reshape(-1)[-1] = bad[p]
            a = a.tolist()
            if p in ('nan', 'inf') and c['dtype'] and 'f' not in c['dtype']:
                raises((ValueError, OverflowError), as_numeric_array, a, _what=what, **kw)
                return
            if p == 'None' and c['dtype'] and 'f' not in c['dtype']:
                raises((ValueError, TypeError), as_numeric_array, a, _what=what, **kw)
                return
        elif p == 'bool':
            kw.pop('dtype', None)
            a = (base > 0) if how == 'array' else (base > 0).tolist()
        elif p == 'ragged':
            a = [base.tolist(), [base.tolist()]]
        else:
            kw.pop('dtype', None)
            a = {'a': 1}
        raises(ValueError, as_numeric_array, a, _what=what + ' and ' + p)
        raises(ValueError, as_numeric_array, a, _what=what + ' and ' + p, **kw)
        label('not numeric')
        nontrivial()
        return
    if c['none'] and c['empty'] and shape == (0,):
        r = call(as_numeric_array, a, **kw)
        require(r is None, '%s: %s', what, short(r))
        label('empty as None')
        nontrivial()
        return
    want = c['want']
    if want is not None and (len(want) != len(shape) or not fits(want, shape) and not fits(want, shape[::-1])):
        raises(ValueError, as_numeric_array, a, _what=what, **kw)
        label('shape rejected')
        nontrivial(base.ndim >= 2)
        return
    r = call(as_numeric_array, a, **kw)
    require(isinstance(r, np.ndarray), '%s: %s', what, short(r))
    if c['dtype']:
        require(r.dtype == np.dtype(c['dtype']), '%s: dtype %s', what, r.dtype)
    elif how == 'objects':
        require(all(isinstance(v, (int, float, np.number)) for v in r.ravel().tolist()), '%s: %s', what, short(r))
        r = r.astype(np.float64)
    else:
        require(r.dtype.kind in 'if', '%s: dtype %s', what, r.dtype)
        if how in ('array', 'int array'):
            require(r.dtype == a.dtype, '%s: dtype %s, given %s', what, r.dtype, a.dtype)
    exact(r, base if want is None or fits(want, shape) else base.T, what)
    label('transposed' if want is not None and not fits(want, shape) else 'as it is' if want is None else 'shape matches')
    nontrivial(base.ndim >= 2)


@sub('C25', g.rec(x=st.lists(st.one_of(st.integers(-2 ** 63, 2 ** 63 - 1), st.integers(2 ** 53 - 3, 2 ** 53 + 3), st.integers(-300, 300)), min_size=1, max_size=9), how=st.sampled_from(['list', 'array', 'tuple']), dtype=st.sampled_from([None, 'int64', 'uint64']), shape=st.sampled_from([None, [-1], 'n'])), 800, shards=2)
def large_whole_numbers(c):
    x = [abs(v) for v in c['x']] if c['dtype'] == 'uint64' else c['x']
    x = [min(v, 2 ** 63 - 1) for v in x]
    a = x if c['how'] == 'list' else tuple(x) if c['how'] == 'tuple' else np.array(x, dtype=c['dtype'] or 'int64')
    kw = {} if c['dtype'] is None else {'dtype': np.dtype(c['dtype']).type}
    if c['shape']:
        kw['shape'] = (len(x),) if c['shape'] == 'n' else (-1,)
    r = call(as_numeric_array, a, **kw)
    require(isinstance(r, np.ndarray) and r.dtype.kind in 'iu', 'whole numbers became %s', short(r))
    equal([int(v) for v in r], x, 'as_numeric_array of large whole numbers')
    nontrivial(max(map(abs, x)) > 2 ** 53)


@sub('C25', g.rec(shape=st.sampled_from([None, [3], [-1, 3], [0]]), allow=st.booleans(), empty=st.booleans(), dtype=st.sampled_from([None, 'float64', 'uint64']), what=st.sampled_from(['None', '[]', '()', 'array', '2d'])), 600, shards=2)
def nothing(c):
    kw = {'allow_none': c['allow'], 'empty_as_none': c['empty']}
    if c['shape']:
        kw['shape'] = tuple(c['shape'])
    if c['dtype']:
        kw['dtype'] = np.dtype(c['dtype']).type
    if c['what'] == 'None':
        if c['allow']:
            require(call(as_numeric_array, None, **kw) is None, 'None is not None')
        else:
            raises(ValueError, as_numeric_array, None, **kw)
    else:
        a = {'[]': [], '()': (), 'array': np.zeros(0), '2d': np.zeros((0, 3))}[c['what']]
        s = np.asarray(a).shape
        if c['allow'] and c['empty'] and s == (0,):
            require(call(as_numeric_array, a, **kw) is None, 'an empty array is not None')
        elif c['shape'] and (len(c['shape']) != len(s) or not fits(c['shape'], s) and not fits(c['shape'], s[::-1])):
            raises(ValueError, as_numeric_array, a, **kw)
        else:
            r = call(as_numeric_array, a, **kw)
            require(isinstance(r, np.ndarray) and r.size == 0, 'an empty array became %s', short(r))
            require(r.shape == s or r.shape == s[::-1], 'an empty array of shape %s became one of shape %s', s, r.shape)
    nontrivial()


finite = st.one_of(st.integers(-10, 10), st.integers(-2 ** 80, 2 ** 80), st.floats(allow_nan=False, allow_infinity=False, width=32))
FLOATS = ['float64', 'float32', 'float16', 'int64', 'int32', 'uint8', 'uint64']


@st.composite
def thing(draw):
    kind = draw(st.sampled_from(['number', 'big', 'np number', 'array', 'list', 'nested', 'decimal', 'bool', 'np bool', 'bool array', 'bool list', 'complex', 'complex array', 'complex list', 'nan', 'inf', 'nan array',
                                 'nan list', 'text', 'bytes', 'text list', 'text array', 'None', 'None list', 'dict', 'set', 'object', 'empty', 'zero d', 'nan zero d', 'bool zero d', 'np nan', 'time', 'mixed list', 'function', 'object array', 'huge', 'huge', 'huge list', 'tiny']))
    return [kind, draw(st.integers(-20, 20)), draw(st.lists(st.integers(-9, 9), min_size=1, max_size=6)), draw(finite), draw(st.sampled_from(FLOATS)), draw(st.sampled_from([1, 2, 3])), draw(st.integers(0, 5))]


def build(t):
    """The object, whether it is a sequence, and whether it is numeric."""
    kind, i, l, f, dt, nd, at = t
    at %= len(l)
    arr = np.array([abs(v) if dt[0] == 'u' else v for v in l], dtype=dt)
    arr = arr.reshape({1: (-1,), 2: (1, -1), 3: (-1, 1, 1)}[nd])
    nan = np.array(l, dtype=np.float64)
    nan[at] = [np.nan, np.inf, -np.inf][i % 3]
    bad = [np.nan, np.inf, -np.inf][i % 3]
    most = np.full(1 + len(l), np.finfo(dt).max if dt[0] == 'f' else np.iinfo(dt).max, dtype=dt)
    most[at] = most[at] if i % 2 else most[at] - most[at] if dt[0] == 'u' else -most[at]
    put = lambda v: l[:at] + [v] + l[at + 1:]
    return {
        'number': (f, False, True), 'big': ((10 ** (15 + abs(i)) + f if isinstance(f, int) else 2 ** 64 + i) * (1 if i % 2 else -1), False, True), 'np number': (np.dtype(dt).type(abs(i)), False, True), 'array': (arr, True, True), 'list': (l if i % 2 else tuple(l), True, True),
        'nested': ([l, l], True, True), 'decimal': (Decimal(i) / 4 if i % 2 else Fraction(i, 3), False, True), 'bool': (bool(i % 2), False, False), 'np bool': (np.bool_(i % 2), False, False),
        'bool array': (arr > 0, True, False), 'bool list': ([v > 0 for v in l], True, False), 'complex': (complex(i, 1), False, False), 'complex array': (arr.astype(np.float64) + 0j, True, False),
        'complex list': (put(complex(i, 1)), True, False), 'nan': (bad, False, False), 'inf': (float('inf'), False, False), 'nan array': (nan.reshape((-1,) if nd == 1 else (1, -1)), True, False),
        'nan list': (put(bad), True, False), 'text': (str(i), True, False), 'bytes': (str(i).encode(), True, False), 'text list': ([str(v) for v in l], True, False), 'text array': (np.array([str(v) for v in l]), True, False),
        'None': (None, False, False), 'None list': (put(None), True, False), 'dict': ({i: 1}, True, False), 'set': ({i}, True, False), 'object': (object(), False, False), 'empty': ([] if i % 2 else np.zeros((0, nd)), True, True),
        'zero d': (np.array(f, dtype=np.float64), True, True), 'nan zero d': (np.array(bad), True, False), 'bool zero d': (np.array(True), True, False), 'np nan': (np.float64(bad) if i % 2 else np.float32(bad), False, False),
        'huge': (most, True, True), 'huge list': ([1.7e308] * (1 + len(l)), True, True), 'tiny': (np.full(1 + len(l), 5e-324), True, True),
        'time': (np.array(l, dtype='m8[s]'), True, False), 'mixed list': (put('a'), True, False), 'function': (len, False, False), 'object array': (np.array(put(None), dtype=object), True, False),
    }[kind]


@sub('C25', thing(), 5000)
def predicates(t):
    x, seq, numeric = build(t)
    for fn, want in ((isnumeric, numeric), (isnumericscalar, numeric and not seq), (isnumericarray, numeric and seq)):
        got = call(fn, x) if t[0] not in ('object', 'function') else fn(x)
        require(isinstance(got, (bool, np.bool_)) and bool(got) == want, '%s of %s (%s): %r', fn.__name__, short(x), t[0], got)
    empty = isinstance(x, (list, tuple, np.ndarray)) and np.asarray(x).size == 0 or x is None
    got = call(is_empty_arraylike, x) if t[0] not in ('object', 'function') else is_empty_arraylike(x)
    require(isinstance(got, (bool, np.bool_)) and bool(got) == empty, 'is_empty_arraylike of %s: %r', short(x), got)
    label(t[0])
    nontrivial(t[0] not in ('number', 'list'))


@st.composite
def much(draw):
    shape = draw(st.sampled_from([[4095], [4096], [4097], [10001], [1025, 3], [3, 2000], [300, 300], [17, 16, 16], [20, 20, 30], [260], [1000]]))
    n = int(np.prod(shape))
    bad = draw(st.sampled_from(['nan', 'inf', '-inf', None]))
    return {'shape': shape, 'at': draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, n - 2, n // 2]))), 'bad': bad, 'dt': draw(st.sampled_from(['float64', 'float32', 'float16'])), 'seed': draw(st.integers(0, 10 ** 6)),
            'as': draw(st.sampled_from(['c', 'f', 's', 'r', 'list'])), 'poison': draw(st.sampled_from([None] * 4 + ['text', 'complex', 'None'])), 'turned': draw(st.booleans())}


@sub('C25', much(), 160, shards=2)
def large(c):
    """Large arrays with at most one entry which is no finite number, anywhere."""
    x = np.random.RandomState(c['seed']).uniform(-9, 9, size=int(np.prod(c['shape']))).astype(c['dt'])
    if c['bad']:
        x[c['at']] = float(c['bad'])
    x = x.reshape(c['shape'])
    a = x.tolist() if c['as'] == 'list' else A(x, c['as'], x.dtype)
    good = c['bad'] is None
    if c['poison'] and c['as'] == 'list':
        y = x.astype(object)
        y.reshape(-1)[c['at']] = {'text': 'a', 'complex': 1 + 2j, 'None': None}[c['poison']]
        a, good = y.tolist(), False
    equal(bool(call(isnumeric, a)), good, 'isnumeric of a large array')
    equal(bool(call(isnumericarray, a)), good, 'isnumericarray of a large array')
    equal(bool(call(isnumericscalar, a)), False, 'isnumericscalar of a large array')
    equal(bool(call(is_empty_arraylike, a)), False, 'is_empty_arraylike of a large array')
    want = c['shape'][::-1] if c['turned'] else c['shape']
    if good:
        r = call(as_numeric_array, a, shape=tuple(want))
        exact(r, x if tuple(want) == x.shape else x.T, 'as_numeric_array of a large array')
        raises(ValueError, as_numeric_array, a, shape=tuple(want[:-1] + [want[-1] + 1]))
        exact(call(as_numeric_array, a), x, 'as_numeric_array of a large array')
    else:
        raises(ValueError, as_numeric_array, a)
        raises(ValueError, as_numeric_array, a, shape=tuple(want))
    label('finite' if good else 'with one which is not')
    nontrivial()


EMPTY = {'none': (None, True), 'list': ([], True), 'tuple': ((), True), '1d': (np.zeros(0), True), '2d': (np.zeros((0, 3)), True), '2d other': (np.zeros((3, 0), dtype=int), True), 'text array': (np.array([], dtype='U3'), True),
         'nested': ([[]], False), 'nested tuple': (((),), False), 'text': ('', False), 'dict': ({}, False), 'zero': (0, False), 'false': (False, False), 'zero d': (np.array(0.0), False), 'zeros': (np.zeros(3), False), 'list of zero': ([0], False), 'list of none': ([None], False),
         'set': (set(), False), 'range': (range(0), False)}


@sub('C25', st.sampled_from(sorted(EMPTY)), 200, shards=1)
def empty(k):
    x, want = EMPTY[k]
    got = call(is_empty_arraylike, x)
    require(isinstance(got, (bool, np.bool_)) and bool(got) == want, 'is_empty_arraylike(%s): %r', short(x), got)
    nontrivial()
