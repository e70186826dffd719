"""C14 Subdivision keeps the curve and respects the requested spacing."""
import math

import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Polyline
from blmath.geometry.segment import partition, partition_segment, partition_segment_old
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub
from .c13 import edges

D = g.Dictionary(['blmath/geometry/primitives/polyline.py', 'blmath/geometry/segment.py'])
RULE = 'Open and closed polylines with short, long and repeated vertices and maximal lengths which divide the segments exactly or not, and segments in 1 to 5 dimensions; non-trivial when some segment is divided and the counts differ between segments.'
ASSUMPTIONS = ['when a segment length is a multiple of max_length up to rounding (1e-9), the next higher count is accepted as well, except for integral lengths where the quotient is exact']


@st.composite
def lined(draw, hi=40):
    """Points of a chain; some along the axes, so that the lengths are whole numbers."""
    if draw(st.booleans()):
        n = draw(g.size(1, hi, D))
        k = draw(st.binary(min_size=2 * n, max_size=2 * n))
        p, out = [0.0, 0.0, 0.0], []
        for i in range(n):
            out.append(list(p))
            s = float(k[2 * i] % 13 - 4)
            a = k[2 * i + 1] % 4
            if a == 3:
                p = [p[0] + 3 * s, p[1] - 4 * s, p[2]]
            else:
                p = list(p)
                p[a] += s
        return [True, out]
    return [False, draw(g.points(1, hi, consts=D))]


@st.composite
def uneven(draw):
    """Many short segments, and a few which are very long."""
    n = draw(st.integers(2, 60))
    k = list(draw(st.binary(min_size=n, max_size=n)))
    p, out = [0.0, 0.0, 0.0], [[0.0, 0.0, 0.0]]
    long = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    by = draw(st.sampled_from([100.0, 127.5, 200.0, 255.0, 256.0, 257.0, 300.0, 1000.0]))
    for i in range(n):
        p = list(p)
        p[k[i] % 3] += ((k[i] // 3) % 3 - 1 if i not in long else by) * draw(st.sampled_from([1.0, 1.0, 0.75])) 
        out.append(p)
    return [True, out]


@sub('C14', g.rec(v=lined(), closed=st.booleans(), m=st.sampled_from([0.5, 1.0, 2.0, 4.0, 0.25, 3.0, 1.5]), rel=st.sampled_from([None, 1.0, 0.5, 0.3333, 0.05, 0.9, 1.1, 10.0]), which=st.integers(0, 40), ret=st.booleans(), lay=g.layout), 5000)
@sub('C14', g.rec(v=st.one_of(lined(260), st.tuples(st.just(False), g.points(257, 2100, consts=D, mode='int')).map(list)), closed=st.booleans(), m=st.sampled_from([0.5, 1.0, 2.0, 3.0, 1.5]), rel=st.sampled_from([None, 1.0, 0.5, 0.3333, 1.1]), which=st.integers(0, 300), ret=st.booleans(), lay=g.layout), 100, name='by_length_long', purity=False, shards=2)
@sub('C14', g.rec(v=uneven(), closed=st.booleans(), m=st.sampled_from([1.0, 1.0, 2.0, 0.9, 7.0]), rel=st.just(None), which=st.just(0), ret=st.booleans(), lay=g.layout, many=st.just(True)), 160, name='by_length_uneven', purity=False, shards=2, thorough=10)
@sub('C14', g.rec(v=lined(8), closed=st.booleans(), m=st.just(1.0), rel=st.sampled_from([1.0, 1 / 64, 1 / 100, 1 / 1000, 1 / 1024, 1 / 1500, 1 / 2048, 1 / 5000]), which=st.integers(0, 40), ret=st.booleans(), lay=g.layout, many=st.just(True)), 40, name='by_length_many', purity=False, shards=2, thorough=10)
def by_length(c):
    exactly, v = c['v']
    v = np.array(v)
    n = len(v)
    e = edges(n, c['closed']).astype(int)
    lengths = [math.sqrt(math.fsum((x - y) ** 2 for x, y in zip(v[a], v[b]))) for a, b in e]
    m = c['m']
    if c['rel'] is not None or not exactly:
        exactly = False
        m = (lengths[c['which'] % len(e)] if len(e) else 1.0) * (c['rel'] or 0.7)
    longest = max(lengths + [0.0])
    # parts which are large compared to the rounding of the coordinates
    m = max(m, longest / (20000 if c.get('many') else 60), 1e-6, 1e-9 * float(np.abs(v).max()))
    if m != c['m']:
        exactly = False
    p = Polyline(A(v, c['lay']), closed=c['closed'])
    r = p.partition_by_length(m, ret_indices=True) if c['ret'] else p.partition_by_length(m)
    size = np.abs(v).max() + 1e-300
    got = num_array(p.v, 'the vertices after partition_by_length')
    require(got.ndim == 2 and got.shape[1] == 3, 'the vertices have the shape %r', got.shape)
    pos, where, counts = 0, [], []
    for i, (a, b) in enumerate(e):
        q = lengths[i] / m
        k = max(1, math.ceil(q))
        allowed = [k]
        if not exactly and q > 0.5 and abs(q - round(q)) < 1e-9 * q:
            allowed = [max(1, round(q)), round(q) + 1]
        where.append(pos)
        for k in allowed:
            part = np.array([v[a] + (v[b] - v[a]) * (j / k) for j in range(k)])
            nxt = v[b] if i + 1 < len(e) or not c['closed'] else v[0]
            after = got[pos + k] if pos + k < len(got) else (got[0] if c['closed'] and i + 1 == len(e) and pos + k == len(got) else None)
            if pos + k <= len(got) and np.abs(got[pos:pos + k] - part).max() <= 1e-12 * size and after is not None and np.abs(after - nxt).max() <= 1e-13 * size:
                break
        else:
            fail('segment %d of length %r should become %r equal parts of at most %r; from %d on, the vertices are %r (segment from %r to %r)', i, lengths[i], allowed, m, pos, got[pos:pos + 6].tolist(), v[a].tolist(), v[b].tolist())
        counts.append(k)
        pos += k
    if not c['closed']:
        where.append(pos)
        pos += 1
    equal(len(got), pos, 'the number of vertices')
    exact(got[where], v, 'the original vertices')
    if c['ret']:
        require(isinstance(r, np.ndarray) and r.dtype.kind in 'iu', 'the indices are %r', r)
        exact(r, where, 'the indices of the original vertices')
    else:
        require(r is p, 'partition_by_length should return the polyline')
    equal(bool(p.closed), c['closed'], 'closed')
    exact(num_array(p.e, 'edges'), edges(len(got), c['closed']), 'the edges')
    close(p.total_length, math.fsum(lengths), 1e-11 * size * (len(got) + 1), 'the total length')
    if len(p.e):
        require(np.max(p.segment_lengths) <= m * (1 + 1e-12) + 1e-13 * size, 'a segment of length %r remains, more than %r', np.max(p.segment_lengths), m)
    label('%s, %s' % ('closed' if c['closed'] else 'open', 'divided' if pos > n else 'unchanged'))
    nontrivial(len(set(counts)) > 1)


@sub('C14', g.rec(d=st.integers(1, 5), x=st.sampled_from([1300, 3000, 5001, 10005]).flatmap(g.nums), n=st.sampled_from([257, 300, 511, 1000, 1025, 2001]), twice=st.sampled_from([0, 0, 2, 3, 7]), k=st.one_of(st.integers(1, 30), st.just(None)), s=g.scale(), lay=g.layout), 16, name='chain_many', purity=False, shards=2, thorough=10)
@sub('C14', g.rec(d=st.integers(3, 8), x=g.nums(8 * 20), n=st.integers(2, 20), twice=st.sampled_from([0, 0, 2, 3]), k=st.one_of(st.integers(1, 30), st.just(None)), s=g.scale(), lay=g.layout, flat=st.integers(1, 4)), 400, name='chain_flat')
@sub('C14', g.rec(d=st.integers(1, 4), x=g.nums(4 * 20), n=st.integers(2, 20), twice=st.just(0), k=st.one_of(st.integers(1, 12), st.just(None)), s=st.just(1.0), lay=g.layout, tiny=st.tuples(st.sampled_from([2, 3, 5, 30]), st.sampled_from([1e-6, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14])).map(list)), 500, name='chain_tiny')
@sub('C14', g.rec(d=st.integers(1, 5), x=g.nums(5 * 200), n=g.size(1, 200, D), twice=st.sampled_from([0, 0, 2, 3, 7]), k=st.one_of(st.integers(1, 30), st.just(None)), s=g.scale(), lay=g.layout), 2500)
def chain(c):
    d, n = c['d'], c['n']
    n = min(n, len(c['x']) // d)
    v = np.array(c['x'][:d * n]).reshape(n, d)
    keep = [0]
    for i in range(1, n):
        if np.linalg.norm(v[i] - v[keep[-1]]) > 1e-6:
            keep.append(i)
    # vertices which are repeated exactly
    keep = [i for i in keep for _ in range(1 + (c['twice'] > 0 and i % (c['twice'] or 1) == 0))]
    v = v[keep] * c['s']
    if c.get('tiny'):
        # most of the steps are very short, and some long
        step = np.diff(v, axis=0)
        short = (np.arange(len(step)) + 1) % c['tiny'][0] > 0
        step[short] *= c['tiny'][1] / np.maximum(np.linalg.norm(step[short], axis=1), 1e-300)[:, np.newaxis]
        v = np.concatenate([np.zeros((1, d)), np.cumsum(step, axis=0)])
    if c.get('flat'):
        # all but the last coordinates are the same
        v = v[np.concatenate([[True], np.abs(np.diff(v[:, -1])) > 1e-6 * c['s']])]
        v[:, :-c['flat']] = v[0, :-c['flat']]
    k = c['k'] or 5
    r = call(partition, A(v, c['lay'])) if c['k'] is None else call(partition, A(v, c['lay']), k)
    want = [a + (b - a) * (j / k) for a, b in zip(v, v[1:]) for j in range(k)] + [v[-1]]
    close(r, np.array(want), 1e-12 * np.abs(v).max() + 1e-300, 'partition', ndarray=True)
    if c.get('tiny') and len(v) > 1:
        # relative to where each segment is
        at = np.repeat(np.abs(v[:-1]).max(axis=1) + np.abs(v[1:]).max(axis=1), k)
        close(np.asarray(r)[:-1], np.array(want[:-1]), (4e-15 * at)[:, np.newaxis], 'partition of short segments')
    nontrivial(len(v) > 2 and k > 1)


@sub('C14', g.rec(vs=st.lists(g.points(2, 5, consts=D), min_size=1, max_size=3), steps=st.lists(st.tuples(st.sampled_from(['part', 'part', 'part', 'v', 'moved', 'closed', 'copy', 'flip']), st.integers(0, 2), st.sampled_from([0.21, 0.5, 0.7, 1.0, 2.0])), min_size=2, max_size=8).map(lambda t: [list(x) for x in t]), closed=st.booleans()), 800)
def repeatedly(c):
    """Dividing one polyline again and again, with changes in between, gives what dividing a new one gives."""
    vs = [np.array(v) for v in c['vs']]
    m = float(max(np.abs(v).max() for v in vs)) or 1.0
    p, closed, done = Polyline(vs[0].copy(), closed=c['closed']), c['closed'], 0
    for i, (k, which, x) in enumerate(c['steps']):
        what = 'after step %d (%s)' % (i + 1, k)
        if k == 'v':
            p.v = vs[which % len(vs)].copy()
        elif k == 'moved':
            # as many vertices, elsewhere
            p.v = np.array(p.v)[::-1] * [1.0, -2.0, 0.5] + which
        elif k == 'closed':
            closed = not closed
            p.closed = closed
        elif k == 'copy':
            p = p.copy()
        elif k == 'flip':
            p.flip()
        elif len(p.v) < 150:
            before = np.array(p.v)
            q = Polyline(before.copy(), closed=closed)
            d = np.linalg.norm(np.diff(np.vstack([before, before[:1]]), axis=0), axis=1)
            length = max(x * m, float(d.max()) / 12)
            a = p.partition_by_length(length, ret_indices=True)
            b = q.partition_by_length(length, ret_indices=True)
            exact(a, np.asarray(b), what + ': the indices, compared to those of a new polyline')
            exact(p.v, np.asarray(q.v), what + ': the vertices, compared to those of a new polyline')
            exact(np.asarray(p.v)[np.asarray(a)], before, what + ': the original vertices')
            require(not len(p.e) or float(np.max(p.segment_lengths)) <= length * (1 + 1e-12) + 1e-13 * np.abs(before).max(), '%s: a segment of length %r remains, more than %r', what, float(np.max(p.segment_lengths)) if len(p.e) else 0, length)
            done += len(p.v) > len(before)
        exact(num_array(p.e, what + ': edges'), edges(len(p.v), closed), what + ': edges')
    nontrivial(done > 1)


@sub('C14', g.rec(d=st.integers(1, 5), a=g.nums(5, consts=D), b=g.nums(5), n=st.one_of(g.size(2, 260, D), g.size(2, 260, D), st.sampled_from([49, 98, 103, 107, 161, 187, 196, 1000, 1025, 4097])), s=g.scale(), end=st.sampled_from([True, False, None]), ints=st.booleans(), same=st.sampled_from([False] * 7 + [True]), lay=g.layout), 3000)
def segment(c):
    d, n = c['d'], c['n']
    a, b = np.array(c['a'][:d]) * c['s'], np.array(c['b'][:d]) * c['s']
    if c['same']:
        b = a.copy()
    if c['ints']:
        a, b = np.round(a).astype(np.int64), np.round(b).astype(np.int64)
    size = max(np.abs(a).max(), np.abs(b).max()) + 1e-300
    x, y = A(a, c['lay'], a.dtype), A(b, c['lay'], b.dtype)
    r = call(partition_segment, x, y, n) if c['end'] is None else call(partition_segment, x, y, n, endpoint=c['end'])
    m = n if c['end'] is False else n - 1
    close(r, np.array([a + (b - a) * (j / m) for j in range(n)]), 1e-14 * size * 10, 'partition_segment', ndarray=True)
    exact(np.asarray(r)[0], a, 'the first point')
    if np.linalg.norm(a - b) > 1e-6 * size or np.all(a == b):
        r = call(partition_segment_old, x, y, n)
        close(r, np.array([a + (b - a) * (j / n) for j in range(1, n)]), 1e-12 * size, 'partition_segment_old', ndarray=True)
        if n == 5:
            close(call(partition_segment_old, x, y), r, 1e-12 * size, 'partition_segment_old, by default')
    nontrivial(n > 2 and d > 1 and bool(np.any(a != b)))


@sub('C14', g.rec(old=st.booleans(), k=st.sampled_from([1, 0, -1, -7, 1.0, 2.0, 5.5, '3', None, 'nan']), d=st.integers(1, 3)), 200, shards=1)
def rejected(c):
    f = partition_segment_old if c['old'] else partition_segment
    a, b = np.zeros(c['d']), np.ones(c['d'])
    k = float('nan') if c['k'] == 'nan' else c['k']
    raises(ValueError if isinstance(k, int) else TypeError, f, a, b, k)
    nontrivial()
