"""C13 Polyline edges and lengths always follow its vertices and closedness (stateful)."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Polyline
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

D = g.Dictionary(['blmath/geometry/primitives/polyline.py', 'blmath/util/decorators.py'])
RULE = 'Histories of up to 12 operations on a polyline, with a model of its vertices and closedness; everything observable is compared after every step; non-trivial when the polyline had at least two vertices and changed at least twice.'
ASSUMPTIONS = ['segments, segment_vectors, len, flip, reindexed and to_dict are not defined for a polyline without vertices (v is None)']

BAD = ['flat', 'two columns', 'four by four', 'three dimensions', 'text', 'nan', 'inf', 'scalar', 'empty list', 'ragged', 'string']


def bad(kind):
    return {'flat': [1.0, 2.0, 3.0], 'two columns': np.ones((4, 2)), 'four by four': np.ones((4, 4)), 'three dimensions': np.ones((2, 3, 1)), 'text': [['a', 'b', 'c']],
            'nan': [[1.0, float('nan'), 2.0]], 'inf': np.array([[1.0, 2.0, float('inf')], [0, 0, 0]]), 'scalar': 4.0, 'empty list': [], 'ragged': [[1.0, 2.0, 3.0], [1.0, 2.0]], 'string': 'abc'}[kind]


forms = st.sampled_from(['c', 'c', 'c', 'f', 's', 'r', 'list', 'tuples', 'transposed', 'int', 'ro'])


@st.composite
def mirrored(draw):
    """There and back, or opposite to each other."""
    p = np.array(draw(g.points(1, 4)))
    k = draw(st.integers(0, 3))
    q = -p[::-1] if k == 0 else -p if k == 1 else p[::-1] if k == 2 else p[:, [1, 0, 2]]
    return (np.vstack([p, q]) + 0.0).tolist()


verts = st.one_of(g.points(1, 8, consts=D), g.points(1, 8, consts=D), mirrored(), g.points(1, 40, consts=D, scales=[1.0, 0.01, 1e3]))


@st.composite
def op(draw):
    k = draw(st.sampled_from(['v', 'v', 'v', 'closed', 'closed', 'flip', 'partition', 'copy', 'reindex', 'poke', 'none', 'empty', 'bad', 'switch']))
    if k == 'v':
        return [k, draw(verts), draw(forms)]
    if k == 'closed':
        return [k, draw(st.booleans())]
    if k == 'partition':
        return [k, draw(st.sampled_from([0.3, 0.5, 0.9, 1.0, 0.25, 5.0]))]
    if k in ('copy', 'reindex', 'switch'):
        return [k, draw(st.integers(0, 40)), draw(st.booleans())]
    if k == 'poke':
        return [k, draw(st.integers(0, 40)), draw(g.nums(3))]
    if k == 'bad':
        return [k, draw(st.sampled_from(BAD))]
    return [k]


def give(p, f):
    """(argument, the vertices it stands for)"""
    a = np.array(p, dtype=float).reshape(-1, 3)
    if f == 'list':
        return a.tolist(), a
    if f == 'tuples':
        return tuple(map(tuple, a.tolist())), a
    if f == 'transposed' and len(a) != 3:
        return np.ascontiguousarray(a.T), a
    if f == 'int':
        r = np.round(a).astype(np.int64)
        return r, r.astype(float)
    return A(a, f if f in ('f', 's', 'r', 'ro') else 'c'), a


def edges(n, closed):
    if n == 0:
        return np.zeros((0, 2))
    return np.array([[i, (i + 1) % n] for i in range(n if closed else n - 1)]).reshape(-1, 2)


def check(p, v, closed, what):
    """Everything observable about a polyline agrees with its vertices and closedness."""
    equal(bool(p.closed), closed, what + ': closed')
    text = call(repr, p)
    require(isinstance(text, str), what + ': repr')
    if v is None:
        require(p.v is None and p.e is None, '%s: v and e should be None, got %r, %r', what, p.v, p.e)
        exact(call(getattr, p, 'segment_lengths'), np.zeros(0), what + ': segment_lengths')
        exact(call(getattr, p, 'total_length'), 0.0, what + ': total_length')
        require('no verts' in text, '%s: repr %s', what, text)
        return
    n = len(v)
    size = np.abs(v).max() + 1e-300 if n else 1.0
    g_v = num_array(p.v, what + ': v', v.shape, ndarray=True)
    exact(g_v, v, what + ': v')
    require(p.v.dtype == np.float64, '%s: v has the dtype %s', what, p.v.dtype)
    e = edges(n, closed)
    exact(num_array(p.e, what + ': e', e.shape, ndarray=True), e, what + ': e')
    require(p.e.dtype.kind in 'iu', '%s: the edges are not integers', what)
    require(not p.e.flags.writeable, '%s: the edges can be written to', what)
    e = e.astype(int)
    equal(len(p), n, what + ': len')
    exact(call(getattr, p, 'segments'), v[e], what + ': segments')
    d = v[e[:, 1]] - v[e[:, 0]]
    exact(call(getattr, p, 'segment_vectors'), d, what + ': segment_vectors')
    lengths = [math.sqrt(math.fsum(x * x for x in r)) for r in d]
    close(call(getattr, p, 'segment_lengths'), np.array(lengths).reshape(len(e)), 1e-13 * size, what + ': segment_lengths', ndarray=True)
    close(call(getattr, p, 'total_length'), math.fsum(lengths), 1e-13 * size * (n + 1), what + ': total_length')
    if n == 0:
        require('no verts' in text, '%s: repr %s', what, text)
    else:
        import re
        require(re.findall(r'\d+', text) == [str(n)] and ('closed' in text) == closed and ('open' in text) != closed, '%s: repr %s', what, text)


def describe(p, v, decimals, what):
    r = call(p.to_dict) if decimals is None else call(p.to_dict, decimals=decimals)
    require(isinstance(r, dict) and sorted(r) == ['edges', 'vertices'], '%s: to_dict gives %r', what, r)
    exact(num_array(r['edges'], what + ': edges of to_dict'), p.e, what + ': edges of to_dict')
    require(isinstance(r['vertices'], list) and len(r['vertices']) == len(v), '%s: vertices of to_dict: %r', what, r['vertices'])
    k = 3 if decimals is None else decimals
    if len(v):
        want = num_array(r['vertices'], what + ': vertices of to_dict', v.shape)
        close(want, v, 0.5 * 10.0 ** -k * (1 + 1e-9) + 1e-13 * np.abs(v).max(), what + ': vertices of to_dict')
        close(want * 10.0 ** k, np.round(want * 10.0 ** k), 1e-9 * (1 + np.abs(want).max() * 10.0 ** k), what + ': decimals of to_dict')
        require(all(isinstance(x, list) for x in r['vertices']), '%s: to_dict should hold lists', what)


@sub('C13', g.rec(v=g.points(300, 12000, consts=D), form=forms, closed=st.booleans(), start=st.just('v'), ops=st.lists(st.one_of(
    st.tuples(st.just('reindex'), st.one_of(st.integers(-40, 40), st.sampled_from([127, 128, 255, 256, 257, 299, 1023, 1024, 4095])), st.just(True)).map(list),
    st.tuples(st.just('closed'), st.booleans()).map(list), st.tuples(st.sampled_from(['copy', 'switch']), st.integers(0, 400), st.booleans()).map(list),
    st.tuples(st.just('v'), g.points(257, 300, consts=D), forms).map(list), st.tuples(st.just('poke'), st.integers(0, 12000), g.nums(3)).map(list), st.just(['flip'])), min_size=1, max_size=4),
    dec=st.sampled_from([None, 0, 1, 5])), 24, name='history_many', purity=False, shards=2, thorough=10)
@sub('C13', g.rec(v=g.points(66, 250, consts=D), form=forms, closed=st.booleans(), start=st.just('v'), ops=st.lists(st.one_of(st.just(['flip']), st.tuples(st.just('closed'), st.sampled_from([True, True, False])).map(list), st.tuples(st.sampled_from(['copy', 'switch']), st.integers(0, 400), st.booleans()).map(list), st.tuples(st.just('reindex'), st.integers(0, 300), st.just(True)).map(list), st.tuples(st.just('v'), g.points(40, 200, consts=D), forms).map(list)), min_size=3, max_size=6), dec=st.sampled_from([None, 1])), 120, name='history_long', purity=False, shards=2, thorough=10)
@sub('C13', g.rec(v=verts, form=forms, closed=st.sampled_from([True, False, None]), start=st.sampled_from(['v', 'v', 'v', 'v', 'v', 'none', 'empty']), ops=st.lists(op(), max_size=12), dec=st.sampled_from([None, 0, 1, 5])), 4000)
def history(c):
    kw = {} if c['closed'] is None else {'closed': c['closed']}
    closed = bool(c['closed'])
    arg, v = {'none': (None, None), 'empty': (np.zeros((0, 3)), np.zeros((0, 3)))}.get(c['start']) or give(c['v'], c['form'])
    p = call(Polyline, arg, **kw)
    v = None if v is None else v.copy()
    check(p, v, closed, 'at first')
    parked = []        # other polylines, with what they should still be
    changes = 0
    for i, o in enumerate(c['ops']):
        k = o[0]
        what = 'after operation %d (%s)' % (i + 1, k)
        n = 0 if v is None else len(v)
        if k == 'v':
            arg, w = give(o[1], o[2])
            p.v = arg
            v = w.copy()
            changes += 1
        elif k == 'none':
            p.v = None
            v = None
        elif k == 'empty':
            p.v = np.zeros((0, 3))
            v = np.zeros((0, 3))
        elif k == 'bad':
            try:
                p.v = bad(o[1])
            except ValueError:
                pass
            else:
                fail('%s: vertices %s were accepted', what, o[1])
        elif k == 'closed':
            p.closed = o[1]
            changes += closed != o[1]
            closed = o[1]
        elif k == 'flip':
            if v is not None:
                p.flip()
                v = v[::-1].copy()
                changes += n > 1
        elif k == 'partition':
            if n:
                longest = max([0.0] + [float(np.linalg.norm(b - a)) for a, b in v[edges(n, closed).astype(int)]])
                if longest > 0 and n < 100:
                    r = p.partition_by_length(longest * o[1] * 1.0001)
                    require(r is p, '%s: partition_by_length should return the polyline', what)
                    v = np.array(p.v)      # where the new vertices are is decided by C14
                    changes += len(v) > n
        elif k == 'poke':
            if n and p.v.flags.writeable:
                p.v[o[1] % n] = o[2]
                v[o[1] % n] = o[2]
                changes += 1
        elif k == 'copy':
            q = call(p.copy)
            require(type(q) is Polyline and q is not p, '%s: not another Polyline', what)
            check(q, v, closed, what + ', the copy')
            if o[2]:
                if n:
                    q.v[o[1] % n] = [1234.5, -7.0, 0.25]
                q.closed = not closed
                q.flip() if n else None
            else:
                parked.append((p, None if v is None else v.copy(), closed, i))
                p = q
        elif k == 'reindex':
            if n:
                if not closed:
                    raises(ValueError, p.reindexed, o[1] % n)
                    raises(ValueError, p.reindexed, o[1] % n, ret_edge_mapping=True)
                else:
                    j = o[1] % n
                    w = np.array([v[(j + m) % n] for m in range(n)])
                    if o[2]:
                        r = call(p.reindexed, j, ret_edge_mapping=True)
                        require(isinstance(r, tuple) and len(r) == 2, '%s: reindexed should return a pair', what)
                        q, mapping = r
                        mapping = num_array(mapping, what + ': mapping', (n,)).astype(int)
                        exact(np.asarray(p.segments)[mapping], np.asarray(q.segments), what + ': the old edges which the mapping gives for the new ones')
                        exact(mapping, [(j + m) % n for m in range(n)], what + ': mapping')
                    else:
                        q = call(p.reindexed, j)
                    require(isinstance(q, Polyline) and q is not p, '%s: reindexed should return a new Polyline', what)
                    check(q, w, True, what + ', the reindexed polyline')
                    if o[2]:
                        parked.append((p, v.copy(), closed, i))
                        p, v = q, w
                        changes += j > 0
        elif k == 'switch' and parked:
            j = o[1] % len(parked)
            q, w, cl, _ = parked[j]
            parked[j] = (p, None if v is None else v.copy(), closed, i)
            p, v, closed = q, w, cl
        check(p, v, closed, what)
        for q, w, cl, j in parked:
            check(q, w, cl, what + ', the polyline left at operation %d' % (j + 1))
        label(k)
    if v is not None:
        describe(p, v, c['dec'], 'at last')
    if v is not None and len(p.e):
        for i in (0, -1):
            try:
                p.e[i, 1] = 7
            except ValueError:
                pass
            else:
                fail('the edges could be written to')
        try:
            p.e = np.zeros((1, 2), dtype=int)
        except AttributeError:
            pass
        else:
            fail('the edges could be assigned')
        check(p, v, closed, 'at last')
    nontrivial(v is not None and len(v) > 1 and changes > 1)


@sub('C13', g.rec(v=g.points(300, 12000, consts=D), axis=g.direction(), closed=st.booleans(), lay=g.layout), 16, name='apex_many', purity=False, shards=2, thorough=10)
@sub('C13', g.rec(v=g.points(1, 120, consts=D), axis=g.direction(), closed=st.booleans(), lay=g.layout), 1500)
def apex(c):
    v, a = np.array(c['v']), np.array(c['axis'])
    got = call(Polyline(A(c['v'], c['lay']), closed=c['closed']).apex, a.copy())
    got = num_array(got, 'apex', (3,))
    h = [math.fsum(x * y for x, y in zip(p, a)) for p in v]
    require(any(np.array_equal(got, p) for p in v), 'apex: %r is no vertex', got.tolist())
    close(math.fsum(x * y for x, y in zip(got, a)), max(h), 1e-13 * np.abs(v).max() * np.abs(a).max(), 'apex: how far along the axis')
    nontrivial(len(v) > 2)


@sub('C13', g.rec(n=st.sampled_from([32769, 65536, 65537, 70000, 100003]), closed=st.booleans(), s=st.sampled_from([0.5, 1.0, 8.0]), at=st.sampled_from([1, 300, 32768, 40000, 65535, 65536])), 6, name='very_many', purity=False, shards=1, thorough=4)
def very_many(c):
    """More vertices than 16 bits count."""
    n, s = c['n'], c['s']
    v = np.vstack([np.arange(n) % 7, np.arange(n), (np.arange(n) * 31) % 11]).T * s
    p = call(Polyline, v, closed=c['closed'])
    check(p, v, c['closed'], 'with %d vertices' % n)
    p.closed = True
    check(p, v, True, 'with %d vertices, closed' % n)
    j = c['at'] % n
    q, mapping = call(p.reindexed, j, ret_edge_mapping=True)
    check(q, np.roll(v, -j, axis=0), True, 'reindexed')
    exact(mapping, np.roll(np.arange(n), -j), 'mapping of reindexed')
    nontrivial()


CLOSED = {'True': True, 'False': False, 'np.True': np.bool_(True), 'np.False': np.bool_(False), '1': 1, '0': 0, 'np.1': np.int64(1), 'np.0': np.uint8(0), 'array': np.array([False, True])[1], 'item': np.array([1, 0])[1]}


@sub('C13', g.rec(v=verts, first=st.sampled_from(sorted(CLOSED)), then=st.lists(st.tuples(st.sampled_from(['set', 'copy', 'v', 'flip', 'part', 'reindex']), st.sampled_from(sorted(CLOSED)), verts).map(list), max_size=5)), 800)
def other_booleans(c):
    """closed may come as a boolean of numpy, such as a comparison gives, or as 0 or 1."""
    p, v, closed = Polyline(np.array(c['v']), closed=CLOSED[c['first']]), np.array(c['v']), bool(CLOSED[c['first']])
    check(p, v, closed, 'at first')
    for i, (k, to, w) in enumerate(c['then']):
        what = 'after operation %d (%s)' % (i + 1, k)
        if k == 'set':
            p.closed, closed = CLOSED[to], bool(CLOSED[to])
        elif k == 'copy':
            p = p.copy()
        elif k == 'v':
            p.v, v = np.array(w), np.array(w)
        elif k == 'flip':
            p.flip()
            v = v[::-1]
        elif k == 'part':
            longest = float(max(list(p.segment_lengths) + [0.0]))
            if longest:
                p.partition_by_length(longest / 1.5)
                require(len(p.v) > len(v), '%s: nothing was added', what)
                v = np.array(p.v)
        elif closed:
            p = p.reindexed(len(v) // 2)
            v = np.roll(v, -(len(v) // 2), axis=0)
        else:
            raises(ValueError, p.reindexed, 0)
        check(p, v, closed, what)
    nontrivial(len(v) > 1)


@sub('C13', g.rec(kind=st.sampled_from(BAD), closed=st.booleans()), 100, shards=1)
def rejected(c):
    raises(ValueError, Polyline, bad(c['kind']), closed=c['closed'])
    nontrivial()
