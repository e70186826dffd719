"""C24 JSON serialization restores values, arrays and sparse matrices."""
import io
import math

import numpy as np
import scipy.sparse as sp
import simplejson
from hypothesis import strategies as st

from blmath.util import json
from blmath.value import Value
from .. import gen as g
from .. import units_ref as U
from ..core import A, call, ctx, equal, exact, fail, label, nontrivial, num_array, require, short
from ..registry import sub

RULE = 'Nested lists and dictionaries (up to depth 4) of text, integers, floats, Values, annotated arrays of several dtypes and shapes, annotated sparse matrices of several formats, and incomplete annotations; non-trivial when an annotation or a Value lies below the top.'
ASSUMPTIONS = ['no nan or infinity, which JSON does not have']

text = st.one_of(st.sampled_from(['', 'a', 'value', 'units', 'dtype', '__value', 'shape', 'data', 'row', 'é ü', '{"a": 1}', 'None', '1']), st.text(max_size=4))
number = st.one_of(st.integers(-1000, 1000), st.integers(-2 ** 60, 2 ** 60), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1e-300, 1e300, -0.0, 1 / 3.0, 25.0, 1e16]))
leaf = st.one_of(st.none(), st.booleans(), number, text)
value = st.tuples(st.one_of(st.integers(-1000, 1000), st.floats(-1e9, 1e9, allow_nan=False), st.floats(allow_nan=False, allow_infinity=False)), st.sampled_from(U.ALL + [None])).map(lambda t: {'#': 'value', 'value': t[0], 'units': t[1]})
DTYPES = ['float64', 'float32', 'int32', 'int64', 'uint8', 'uint64', 'bool', '<f8', 'int', 'float16', '>f8', '>i4', '>i2', 'object', None, None]


@st.composite
def array(draw, shapes=[[0], [1], [3], [7], [2, 3], [1, 3], [3, 1], [4, 2], [2, 2, 3], [0, 3], [5, 3], []]):
    shape = draw(st.sampled_from(shapes))
    dt = draw(st.sampled_from(DTYPES))
    n = int(np.prod(shape)) if shape else 1
    if dt is None or 'f' in dt:
        x = draw(g.nums(n))
        if dt in (None, 'float64', '<f8', '>f8') and n:
            x[0] = draw(st.sampled_from([x[0], 1 / 3.0, 1e-12, 123456789.123456789]))
    else:
        x = [int(abs(a)) % (2 if dt == 'bool' else 200) for a in draw(g.nums(n, mode='wide'))]
        if dt in ('int64', 'uint64', 'int') and n:
            x[0] = draw(st.sampled_from([x[0], 2 ** 53 + 1, 2 ** 62 + 3]))
            if n > 1:
                # a whole number written with a point, or as true
                x[1] = draw(st.sampled_from([x[1], x[1], float(x[1]), True]))
        if dt == 'object':
            x = [draw(st.sampled_from([a, 2 ** 63 + a, 10 ** 30 + a, -2 ** 100, float(a), 'x%d' % a, None, True])) if i < 4 else a for i, a in enumerate(x)]
        if dt == 'bool':
            x = [bool(a) for a in x]
    nested = np.array(x, dtype=object).reshape(shape).tolist()
    return {'#': 'array', 'data': nested, 'dtype': dt, 'shape': shape, 'extra': draw(st.booleans())}


@st.composite
def sparse(draw, hi=6, most=8):
    m, n = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    far = [0, 0]
    if draw(st.integers(0, 9)) == 0:
        # far more rows or columns than entries
        far = draw(st.sampled_from([[300, 0], [40000, 0], [0, 40000], [70000, 70000], [0, 2 ** 20], [200, 100000]]))
        m, n = m + far[0], n + far[1]
    k = draw(st.integers(0, most))
    dt = draw(st.sampled_from(['float64', 'float64', 'int32', 'float32', '<f8', 'int64']))
    d = draw(g.nums(k, mode='int' if 'i' in dt else 'half'))
    d = [int(a) for a in d] if 'i' in dt else d
    return {'#': 'sparse', 'row': [draw(st.integers(min(0 if k % 2 else far[0], m - 1), m - 1)) for _ in range(k)], 'col': [draw(st.integers(0 if k % 3 else min(far[1], n - 1), n - 1)) for _ in range(k)], 'data': d, 'shape': [m, n], 'dtype': dt,
            'format': draw(st.sampled_from(['coo', 'csr', 'csc', 'lil', 'dok', 'dia', 'bsr', 'csc', 'csr'])),
            'drop': draw(st.sampled_from([None] * 8 + ['row', 'col', 'data', 'shape', 'dtype', 'format'])), 'mark': draw(st.sampled_from([True, 1, None, '']))}


def tree():
    base = st.one_of(leaf, leaf, value, value, array(), sparse())
    return st.recursive(base, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(text, c, max_size=3)), max_leaves=8)


def encode(t):
    """What the user writes: Values, and annotations as plain dictionaries."""
    if isinstance(t, list):
        return [encode(x) for x in t]
    if isinstance(t, dict):
        k = t.get('#')
        if k == 'value' and 'units' in t:
            return Value(t['value'], t['units'])
        if k == 'array':
            d = {'__ndarray__': t['data']}
            if t['dtype']:
                d['dtype'] = t['dtype']
            if t['extra']:
                d['shape'] = t['shape']
            return d
        if k == 'sparse':
            d = {'__scipy.sparse.sparsematrix__': t['mark']}
            d.update({f: t[f] for f in ('row', 'col', 'data', 'shape', 'dtype', 'format') if f != t['drop']})
            return d
        return {k: encode(x) for k, x in t.items()}
    return t


def compare(got, t, path, seen):
    if isinstance(t, list):
        require(isinstance(got, list) and len(got) == len(t), '%s: got %s, expected a list of %d', path, short(got), len(t))
        for i, (a, b) in enumerate(zip(got, t)):
            compare(a, b, '%s[%d]' % (path, i), seen)
        return
    if isinstance(t, dict):
        k = t.get('#')
        if k == 'value' and 'units' in t:
            require(isinstance(got, Value), '%s: got %s, expected a Value', path, short(got))
            require(got.value == float(t['value']) and got.units == t['units'], '%s: got %r %s, expected %r %s', path, got.value, got.units, t['value'], t['units'])
            seen.append(path)
            return
        if k == 'array':
            want = np.array(t['data'], dtype=t['dtype'] or np.float64)
            require(isinstance(got, np.ndarray), '%s: got %s, expected an array', path, short(got))
            require(got.dtype == want.dtype and got.shape == want.shape, '%s: array of %s %s, expected %s %s', path, got.dtype, got.shape, want.dtype, want.shape)
            require(np.array_equal(got, want), '%s: got %s, expected %s', path, short(got.tolist()), short(want.tolist()))
            seen.append(path)
            label('array ' + str(t['dtype']))
            return
        if k == 'sparse':
            if t['drop']:
                require(isinstance(got, dict) and got == encode(t), '%s: an incomplete annotation became %s', path, short(got))
                label('incomplete sparse')
                return
            require(sp.issparse(got), '%s: got %s, expected a sparse matrix', path, short(got))
            equal(got.format, t['format'], path + ': format')
            equal(tuple(got.shape), tuple(t['shape']), path + ': shape')
            require(got.dtype == np.dtype(t['dtype']), '%s: dtype %s, expected %s', path, got.dtype, t['dtype'])
            if np.prod(t['shape'], dtype=float) > 1e5:
                want = {}
                for i, j, d in zip(t['row'], t['col'], t['data']):
                    want[i, j] = want.get((i, j), 0.0) + d
                coo = got.tocoo()
                coo.sum_duplicates()
                have = {(int(i), int(j)): float(d) for i, j, d in zip(coo.row, coo.col, coo.data)}
                require({k: v for k, v in have.items() if v} == {k: v for k, v in want.items() if v}, '%s: got %s, expected %s', path, short(have), short(want))
                seen.append(path)
                label('large sparse ' + t['format'])
                return
            want = np.zeros(t['shape'])
            for i, j, d in zip(t['row'], t['col'], t['data']):
                want[i, j] += d
            require(np.array_equal(got.toarray().astype(float), want), '%s: got %s, expected %s', path, got.toarray().tolist(), want.tolist())
            seen.append(path)
            label('sparse ' + t['format'])
            return
        require(type(got) is dict and set(got) == set(t), '%s: got %s, expected a dictionary of %r', path, short(got), sorted(t))
        for f in t:
            compare(got[f], t[f], '%s.%s' % (path, f), seen)
        return
    require(type(got) is type(t) and (got == t), '%s: got %s, expected %s', path, short(got), short(t))


@st.composite
def large(draw):
    """Long lists and large arrays and matrices."""
    out = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(draw(array([[300], [1000], [100, 3], [1025], [2, 600], [4, 5, 60], [2049]])))
        elif k == 1:
            out.append(draw(sparse(300, 60)))
        elif k == 2:
            out.append([{'#': 'value', 'value': x, 'units': None if i % 7 == 3 else 'cm'} for i, x in enumerate(draw(g.size(257, 1100).flatmap(g.nums)))])
        else:
            out.append({'key %d' % i: x for i, x in enumerate(draw(g.size(257, 1100).flatmap(g.nums)))})
    # and deep ones
    for _ in range(draw(st.sampled_from([0, 0, 3, 40]))):
        out = [out] if draw(st.booleans()) else {'a': out}
    return out


@sub('C24', g.rec(t=large(), how=st.sampled_from(['s', 'f', 'indent', 'sort', 'bytes', 'mixed'])), 40, name='round_trip_many', purity=False, shards=2, thorough=10)
@sub('C24', g.rec(t=tree(), how=st.sampled_from(['s', 's', 'f', 'indent', 'sort', 'bytes', 'mixed'])), 5000)
def round_trip(c):
    t = c['t']
    x = encode(t)
    if c['how'] == 's':
        got = call(json.loads, call(json.dumps, x))
    elif c['how'] == 'indent':
        got = call(json.loads, call(json.dumps, x, indent=2))
    elif c['how'] == 'sort':
        got = call(json.loads, call(json.dumps, x, sort_keys=True))
    elif c['how'] == 'bytes':
        got = call(json.loads, call(json.dumps, x).encode('utf-8'))
    elif c['how'] == 'mixed':
        f = io.StringIO()
        # options are those of simplejson
        kw = [{}, {'sort_keys': True}, {'indent': 2}, {'separators': (',', ':')}, {'ensure_ascii': False}, {'skipkeys': True}][len(repr(t)) % 6]
        json.dump(x, f, **kw)
        text = call(json.dumps, x, **kw)
        equal(f.getvalue(), text, 'dump and dumps with %r' % kw)
        equal(text, simplejson.dumps(x, for_json=True, **kw), 'dumps with %r' % kw)
        got = call(json.loads, text)
    else:
        f = io.StringIO()
        require(json.dump(x, f) is None, 'dump returns something')
        f.seek(0)
        got = json.load(f)
    seen = []
    compare(got, t, 'x', seen)
    require(repr(x) == repr(encode(t)), 'the object which was dumped has changed')
    label(c['how'])
    nontrivial(any('[' in p or '.' in p for p in seen))


@sub('C24', g.rec(v=value), 1500, shards=2)
def annotation(c):
    v = Value(c['v']['value'], c['v']['units'])
    d = call(v.for_json)
    equal(d, {'__value__': {'value': v.value, 'units': v.units}}, 'for_json')
    w = call(Value.from_json, d)
    require(isinstance(w, Value) and w.value == v.value and w.units == v.units, 'from_json: %s', short(w))
    w = call(json.loads, '{"__value__": {"units": %s, "value": %r}}' % ('null' if v.units is None else '"%s"' % v.units, v.value))
    require(isinstance(w, Value) and w.value == v.value and w.units == v.units, 'loads of an annotation: %s', short(w))
    if v.units is None:
        w = call(json.loads, '{"__value__": {"value": %r}}' % v.value)
        require(isinstance(w, Value) and w.value == v.value and w.units is None, 'loads of an annotation without units: %s', short(w))
    nontrivial()
