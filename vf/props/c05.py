"""C05 CoordinateManager maps points between any two tagged states."""
import numpy as np
from hypothesis import strategies as st

from .c04 import D, apply_chain, model_of, op, perform, perform_bad
from blmath.geometry.transform.coordinate_manager import CoordinateManager
from .. import gen as g
from ..core import A, call, close, equal, exact, fail, label, nontrivial, raises, require
from ..registry import sub

RULE = 'Histories of up to 24 steps which append transforms, tag the state, assign points or meshes to tags, and read tags; non-trivial when points were set and read at different tags with transforms between them.'
ASSUMPTIONS = ['a tag is not moved while points are set at it, as the documentation does not say which state then counts']

TAGS = ['source', 'floored', 'centered', 't_1', 'X', 'final']


class PlainMesh(object):
    """A mesh without a copy method."""
    def __init__(self, v, f):
        self.v, self.f, self.name = v, f, 'plain'


class CopyMesh(PlainMesh):
    def __init__(self, v, f):
        PlainMesh.__init__(self, v, f)
        self.copies = 0
        self.origin = None

    def copy(self):
        r = CopyMesh(None if self.v is None else np.array(self.v), np.array(self.f))
        r.origin = self
        self.copies += 1
        return r


tags = st.sampled_from(TAGS)
refs = st.integers(0, 174).map(lambda k: k // 7 if k < 161 else -(k % 7) - 1)     # below 1: a tag which was never made; otherwise one of the tags made so far


def resolve(r, tagged):
    if isinstance(r, str):
        return r
    if r == 0 or not tagged:
        return next(t for t in TAGS + ['never'] if t not in tagged)
    if r < 0:
        # a name which resembles that of a tag
        t = sorted(tagged)[r % len(tagged)]
        t = [t[:-1], t[1:], t + 's', t.upper(), t.lower(), t + '_', t.title()][-r - 1]
        return t if t not in tagged and t else 'never'
    return sorted(tagged)[r % len(tagged)]


@st.composite
def step(draw):
    k = draw(st.integers(0, 11))
    if k <= 3:
        return ['op', draw(op(bad=False))]
    if k <= 5:
        return ['tag', draw(tags)]
    if k <= 7:
        return ['set', draw(refs), draw(st.sampled_from(['points', 'points', 'plain', 'copy', 'none', 'bare'])), draw(g.points(1, 12, consts=D))]
    if k <= 9:
        return ['get', draw(refs)]
    if k == 10 and draw(st.booleans()):
        return ['again', draw(refs)]
    if k == 10:
        return ['do', draw(refs), draw(refs), draw(st.sampled_from(['points', 'points', 'plain', 'plain', 'copy', 'copy', 'bare'])), draw(g.points(1, 6))]
    return ['bad', draw(st.integers(0, 8))]


def make(kind, pts):
    f = np.array([[0, 1, 2]])
    if kind == 'points':
        return A(pts)
    v = None if kind == 'none' else np.zeros((0, 3)) if kind == 'bare' else A(pts)
    return (PlainMesh if kind in ('plain', 'none') else CopyMesh)(v, f)


def check_result(got, kind, obj, want, tol, what):
    if kind == 'points':
        close(got, want, tol, what, ndarray=True)
        return
    if kind == 'none':
        require(got is obj, '%s: a mesh without vertices should come back as is', what)
        require(obj.v is None, '%s: vertices appeared', what)
        return
    require(type(got) is type(obj), '%s: expected a %s, got %r', what, type(obj).__name__, got)
    require(got is not obj, '%s: expected a copy of the mesh', what)
    close(got.v, want, tol, what + ' (vertices)')
    exact(got.f, obj.f, what + ' (faces)')
    equal(got.name, obj.name, what + ' (name)')
    if kind in ('copy', 'bare'):
        require(got.origin is obj, '%s: the copy was not made by the copy method of the mesh', what)


def mapped(model, i, j, pts):
    if i <= j:
        chain = [m[0] for m in model[i:j]]
    else:
        chain = [m[1] for m in reversed(model[j:i])]
    lo, hi = min(i, j), max(i, j)
    loose = (1e-12 if i <= j else 1e-10) + 4 * sum(m[2] for m in model[lo:hi])
    w, b = apply_chain(chain, pts)
    return w, loose * (b + (b.max() if b.size else 0.0))


@sub('C05', g.rec(before=st.lists(st.one_of(op(bad=False).map(lambda o: ['op', o]), tags.map(lambda t: ['tag', t])), min_size=0, max_size=8),
                  steps=st.lists(step(), min_size=2, max_size=24), tail=st.lists(refs, min_size=1, max_size=6), init=g.points(2, 6)), 5000, name='history')
@sub('C05', g.rec(before=st.lists(st.one_of(op(bad=False).map(lambda o: ['op', o]), tags.map(lambda t: ['tag', t])), min_size=1, max_size=6),
                  steps=st.lists(st.one_of(op(bad=False).map(lambda o: ['op', o]), tags.map(lambda t: ['tag', t]), refs.map(lambda r: ['get', r])), min_size=1, max_size=6), tail=st.lists(refs, min_size=1, max_size=4), init=g.points(300, 5000)), 24, name='history_many', purity=False, shards=2, thorough=10)
def history(c):
    cm = CoordinateManager()
    model, tagged, cur = [], {}, None
    moved = False
    first = [['tag', 'source']] if len(c['init']) % 2 else []
    for s in first + c['before'] + c['steps'] + [['tag', 'final'], ['set?', c['init']]] + [['get', t] for t in c['tail']]:
        s = list(s)
        if s[0] in ('set', 'get', 'do', 'again'):
            s[1] = resolve(s[1], tagged)
            if s[0] == 'do':
                s[2] = resolve(s[2], tagged)
        if s[0] == 'op':
            perform(cm, s[1])
            model.append(model_of(s[1]))
        elif s[0] == 'bad':
            perform_bad(cm, s[1])
        elif s[0] == 'tag':
            if cur is not None and s[1] == cur[0] and tagged[s[1]] != len(model):
                continue
            cm.tag_as(s[1])
            tagged[s[1]] = len(model)
        elif s[0] in ('set', 'set?'):
            if s[0] == 'set?':
                if cur is not None:
                    continue
                s = ['set', sorted(tagged)[0], 'points', s[1]]
            obj = make(s[2], s[3])
            if s[2] == 'bare':
                s[3] = np.zeros((0, 3))
            if s[1] not in tagged:
                raises(AttributeError, setattr, cm, s[1], obj)
                label('set unknown tag')
                continue
            setattr(cm, s[1], obj)
            cur = (s[1], s[2], obj, s[3])
            label('set ' + s[2])
        elif s[0] == 'again':
            # the very object which is set, or the result of reading it, at another tag
            if cur is None or s[1] not in tagged:
                continue
            setattr(cm, s[1], cur[2])
            cur = (s[1],) + cur[1:]
            label('set the same object again')
        elif s[0] == 'get':
            if cur is None:
                raises(ValueError, getattr, cm, s[1])
                label('get before set')
                continue
            tag, kind, obj, pts = cur
            if s[1] not in tagged:
                if kind == 'none':
                    continue
                raises(KeyError, getattr, cm, s[1])
                label('get unknown tag')
                continue
            i, j = tagged[tag], tagged[s[1]]
            want, tol = mapped(model, i, j, pts)
            got = getattr(cm, s[1])
            check_result(got, kind, obj, want, tol if i != j else 0.0, 'reading %s of points set at %s' % (s[1], tag))
            # the object which was set is unchanged
            exact(obj if kind == 'points' else obj.v if kind != 'none' else pts, pts, 'the points which were set')
            label('get %s' % ('same' if i == j else 'later' if i < j else 'earlier'))
            moved = moved or (i != j and kind != 'none')
        elif s[0] == 'do':
            obj = make(s[3], s[4])
            if s[1] not in tagged or s[2] not in tagged:
                raises(KeyError, cm.do_transform, obj, s[1], s[2])
                continue
            if s[3] == 'bare':
                s[4] = np.zeros((0, 3))
            want, tol = mapped(model, tagged[s[1]], tagged[s[2]], s[4])
            got = cm.do_transform(obj, from_tag=s[1], to_tag=s[2])
            check_result(got, s[3], obj, want, tol, 'do_transform from %s to %s' % (s[1], s[2]))
            exact(obj if s[3] == 'points' else obj.v, s[4], 'the points given to do_transform')
    nontrivial(moved)
