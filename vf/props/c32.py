"""C32 Calculations leave their inputs alone and do not depend on history.

Most of this property is decided by a sweep: run.py runs the generators and oracles of the other properties with
core.call in its purity mode, which runs every call twice on copies of its arguments, overwrites the first result in
place, repeats calls of earlier cases, and compares. The checks here add histories of several objects at once.
"""
import numpy as np
from hypothesis import strategies as st

from blmath.geometry import Box, Plane, Polyline
from blmath.geometry.transform import CompositeTransform, CoordinateManager
from blmath.value import Value
from .. import gen as g
from ..core import A, close, equal, exact, label, nontrivial, num_array, require, short
from ..registry import sub
from .c04 import op, perform, perform_bad
from .c13 import edges

RULE = 'The cases of all other properties, each call made twice with equal arguments and repeated after other calls, with results overwritten in between; and interleaved histories of two to four objects, compared with each one alone; a sweep case is non-trivial as in its own property, an interleaved history when two objects of a class changed in turn.'
ASSUMPTIONS = ['results are compared up to 1e-7, as sums may be ordered differently', 'standard streams, chumpy objects and the memory check are left out of the sweep']


def queries(t, pts, n):
    out = [np.array(t.matrix_for()), np.array(t.matrix_for(reverse=True)), np.array(t(A(pts))), np.array(t(A(pts), reverse=True))]
    out.append(np.array(t.matrix_for((0, n // 2))))
    out.append(np.array(t.matrix_for((n // 2, n), reverse=True)))
    return out


@sub('C32', g.rec(k=st.integers(2, 4), ops=st.lists(st.tuples(st.integers(0, 3), st.one_of(op(), op(bad=False), st.just(['look']), st.just(['scribble']))).map(list), min_size=2, max_size=14), pts=g.points(1, 6)), 3000, purity=False)
def interleaved_transforms(c):
    """Several composite transforms, built in turn, are each as if built alone."""
    k = c['k']
    ts = [CompositeTransform() for _ in range(k)]
    given = [[] for _ in range(k)]
    turns = []
    for i, o in c['ops']:
        i %= k
        if o[0] == 'look':
            queries(ts[i], c['pts'], len(given[i]))
            continue
        if o[0] == 'scribble':
            # what a caller does with its results
            for r in (ts[i].matrix_for(), ts[i].matrix_for(reverse=True), ts[i](A(c['pts']))):
                r[...] = 5.0
            continue
        if o[0] == 'bad':
            perform_bad(ts[i], o[1])
            continue
        perform(ts[i], o)
        given[i].append(o)
        turns.append(i)
    for i in range(k):
        alone = CompositeTransform()
        for o in given[i]:
            perform(alone, o)
        for name, a, b in zip(('matrix', 'reverse matrix', 'points', 'points in reverse', 'first half', 'second half reversed'), queries(ts[i], c['pts'], len(given[i])), queries(alone, c['pts'], len(given[i]))):
            close(a, b, 1e-9 * (1e-300 + np.abs(b).max()), '%s of transform %d of %d built in turn, against the same built alone' % (name, i + 1, k))
    nontrivial(len(set(turns)) > 1 and any(a != b for a, b in zip(turns, turns[1:])))
    label('%d objects' % k)


@st.composite
def many_step(draw):
    k = draw(st.sampled_from(['op', 'op', 'tag', 'set', 'get', 'get']))
    i = draw(st.integers(0, 2))
    if k == 'op':
        return [i, k, draw(op(bad=False))]
    if k == 'set':
        return [i, k, draw(st.integers(0, 9)), draw(g.points(1, 5))]
    return [i, k, draw(st.integers(0, 9)), draw(st.sampled_from([False, False, True]))] if k == 'get' else [i, k, draw(st.integers(0, 9))]


@sub('C32', g.rec(steps=st.lists(many_step(), min_size=4, max_size=20), pts=g.points(1, 4)), 2000, purity=False)
def interleaved_managers(c):
    """Several coordinate managers with the same tags do not mix them up."""
    def run(cm, state, s, scribble=False):
        k = s[1]
        if k == 'op':
            perform(cm, s[2])
            state['n'] += 1
        elif k == 'tag':
            t = 't%d' % len(state['tags'])
            cm.tag_as(t)
            state['tags'].append(t)
            state['at'].append(state['n'])
        elif k == 'set':
            setattr(cm, state['tags'][s[2] % len(state['tags'])], A(s[3]))
            state['set'] = state['at'][s[2] % len(state['tags'])]
        elif state['set'] is not None:
            r = getattr(cm, state['tags'][s[2] % len(state['tags'])])
            copied = np.array(r)
            if scribble and state['at'][s[2] % len(state['tags'])] != state['set']:
                # what a caller does with points which were computed
                r[...] = 5.0
            return copied
        return None

    def fresh():
        cm = CoordinateManager()
        cm.tag_as('t0')
        return cm, {'tags': ['t0'], 'at': [0], 'n': 0, 'set': None}
    objs = [fresh() for _ in range(3)]
    got, mine = [[], [], []], [[], [], []]
    tail = [[i, k, 0] + x for i in range(3) for k, x in (('set', [c['pts']]), ('tag', []), ('get', []))]
    for s in c['steps'] + tail + [[i, 'get', j] for i in range(3) for j in range(3)]:
        i = s[0]
        got[i].append(run(objs[i][0], objs[i][1], s, s[1] == 'get' and len(s) > 3 and s[3]))
        mine[i].append(s)
    for i in range(3):
        cm, state = fresh()
        for j, s in enumerate(mine[i]):
            r = run(cm, state, s)
            if r is None:
                require(got[i][j] is None, 'a manager gave %s', short(got[i][j]))
            else:
                close(got[i][j], r, 1e-9 * (1e-300 + np.abs(r).max()), 'manager %d, step %d of its own' % (i + 1, j + 1))
        # without the readings in between, and the last ones in another order
        cm, state = fresh()
        for s in mine[i]:
            if s[1] != 'get':
                run(cm, state, s)
        for j in (2, 0, 1):
            r = run(cm, state, [i, 'get', j])
            close(got[i][j - 3], r, 1e-9 * (1e-300 + np.abs(r).max()), 'manager %d, the tag read as number %d at last, against a manager of which less was read' % (i + 1, j))
    turns = [s[0] for s in c['steps'] if s[1] in ('op', 'set', 'tag')]
    nontrivial(len(set(turns)) > 1)


@st.composite
def shape_step(draw):
    k = draw(st.sampled_from(['closed', 'flip', 'partition', 'v', 'cut', 'cut', 'plane', 'flipped', 'signed', 'length', 'box', 'value', 'scribble', 'segments']))
    return [k, draw(st.integers(0, 9)), draw(st.booleans()), draw(g.points(3, 6)) if k in ('v', 'plane', 'signed') else draw(g.direction()) if k == 'cut' else None]


@sub('C32', g.rec(v=g.points(3, 8), n=st.integers(2, 3), steps=st.lists(shape_step(), min_size=3, max_size=16)), 3000, purity=False)
def interleaved_shapes(c):
    """Polylines and planes which were made of the same arrays, or of each other, change one by one only."""
    source = A(c['v'])
    lines = [Polyline(np.array(source), closed=bool(i % 2)) for i in range(c['n'])]
    planes = [Plane(np.array(source[0]), np.array([0.0, 1.0, 0.5]))]
    model = [(np.array(source), bool(i % 2)) for i in range(c['n'])]
    pmodel = [(np.array(source[0]), np.array(planes[0].normal))]
    changed = []
    for s in c['steps']:
        k, i = s[0], s[1] % len(lines)
        p, (v, closed) = lines[i], model[i]
        plane = planes[s[1] % len(planes)]
        if k == 'closed':
            p.closed = s[2]
            model[i] = (v, s[2])
        elif k == 'flip':
            p.flip()
            model[i] = (v[::-1].copy(), closed)
        elif k == 'v':
            p.v = A(s[3])
            model[i] = (np.array(s[3]), closed)
        elif k == 'partition':
            longest = np.max(np.linalg.norm(np.diff(v, axis=0), axis=1))
            if longest > 0 and len(v) < 30:
                p.partition_by_length(longest * 0.7)
                model[i] = (np.array(p.v), closed)
        elif k == 'cut':
            ends = Plane(v[len(v) // 2] + 0.25 * (v[0] - v[len(v) // 2]), np.array(s[3]))
            try:
                q = p.cut_by_plane(ends)
            except ValueError:
                q = None
            if q is not None and len(lines) < 6:
                lines.append(q)
                model.append((np.array(q.v), bool(q.closed)))
        elif k == 'plane':
            try:
                q = Plane.from_points(*np.array(s[3][:3]))
            except ValueError:
                continue
            planes.append(q)
            pmodel.append((np.array(q.reference_point), np.array(q.normal)))
        elif k == 'flipped':
            q = plane.flipped()
            planes.append(q)
            pmodel.append((np.array(q.reference_point), np.array(q.normal)))
        elif k == 'signed':
            plane.signed_distance(np.array(s[3]))
            plane.project_point(np.array(s[3][0]))
            plane.points_in_front(np.array(s[3]))
        elif k == 'length':
            p.total_length
            p.to_dict()
            p.bounding_box if hasattr(p, 'bounding_box') else None
        elif k == 'segments':
            plane.polyline_xsection(p)
            p.intersect_plane(plane)
        elif k == 'scribble':
            # arrays which were computed belong to the caller
            for r in (p.segments, p.segment_vectors, p.segment_lengths, p.copy().v, plane.canonical_point, plane.equation, plane.signed_distance(np.array(v)), plane.project_point(np.array(v[0]))):
                if isinstance(r, np.ndarray) and r.flags.writeable:
                    r[...] = 1.25
        if k in ('closed', 'flip', 'v', 'partition'):
            changed.append(i)
        label(k)
        for j, (q, (w, cl)) in enumerate(zip(lines, model)):
            exact(q.v, w, 'vertices of polyline %d after %s of polyline %d' % (j, k, i))
            equal(bool(q.closed), cl, 'closed of polyline %d after %s of polyline %d' % (j, k, i))
            exact(q.e, edges(len(w), cl), 'edges of polyline %d after %s of polyline %d' % (j, k, i))
        for j, (q, (r, n)) in enumerate(zip(planes, pmodel)):
            exact(q.reference_point, r, 'reference point of plane %d after %s' % (j, k))
            exact(q.normal, n, 'normal of plane %d after %s' % (j, k))
    exact(source, c['v'], 'the source array')
    nontrivial(len(set(changed)) > 1)
