"""C21 Unit conversion is physically right, consistent and class-safe."""
import numpy as np
from hypothesis import strategies as st

from blmath import units
from .. import gen as g
from .. import units_ref as U
from ..core import A, call, close, equal, exact, fail, label, nontrivial, num_array, raises, require
from ..registry import sub

RULE = 'Pairs and triples of the 41 names of units, values of any size and sign, lists, requests across classes, unknown names, and sequences of requests for default units with exceptions; non-trivial when the units are different.'
ASSUMPTIONS = ['pounds, stones and years agree with their definitions to 2e-6 (the table has six digits), all else to 1e-12']

value = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0, 1, -1, 1.0, 0.0, 1e-9, 1e9, 182.13992]))
unit = st.sampled_from(U.ALL)
BAD = ['foo', 'CM', 'metres', 'lbs.', 'kgs', 'length', 'metric', ' cm', 'ounce', 'hours per week', '_units', 'Inch']


@st.composite
def same_class(draw, n):
    c = draw(st.sampled_from(['length', 'length', 'weight', 'angle', 'time', 'time', 'time_rate']))
    return [draw(st.sampled_from(U.BY_CLASS[c])) for _ in range(n)]


def near(got, want, rel, what):
    if isinstance(got, bool) or not isinstance(got, (int, float, np.floating, np.integer)):
        fail('%s: not a number: %r', what, got)
    require(abs(got - want) <= rel * abs(want) + 1e-290, '%s: got %r, expected %r', what, got, want)


@sub('C21', g.rec(u=same_class(3), v=value, l=st.lists(value, max_size=5), cls=st.booleans(), alias=st.integers(0, 10), alias2=st.integers(0, 10)), 5000)
def pairs(x):
    a, b, c = x['u']
    v = x['v']
    kw = {'units_class': U.CLASS[a]} if x['cls'] else {}
    f = call(units.factor, a, b, **kw)
    near(f, U.factor(a, b), U.tol(a, b), 'factor(%s, %s)' % (a, b))
    r = call(units.convert, v, a, b, **kw)
    require(isinstance(r, tuple) and len(r) == 2, 'convert: not a pair: %r', r)
    equal(r[1], b, 'units after convert')
    near(r[0], v * U.factor(a, b), U.tol(a, b) + 1e-15, 'convert(%r, %s, %s)' % (v, a, b))
    near(r[0], v * f, 1e-14, 'convert and factor')
    # there and back, and through a third unit
    near(call(units.convert, r[0], b, a)[0], v, 1e-14, 'there and back')
    near(call(units.convert, call(units.convert, v, a, c)[0], c, b)[0], r[0], 1e-14, 'through %s' % c)
    # names of one unit
    a2, b2 = U.SAME[a][x['alias'] % len(U.SAME[a])], U.SAME[b][x['alias2'] % len(U.SAME[b])]
    near(call(units.factor, a2, b2), f, 1e-15, 'factor by other names: %s, %s' % (a2, b2))
    near(call(units.raw, a) / call(units.raw, b), f, 1e-14, 'ratio of raw factors')
    got = call(units.convert_list, x['l'], a, b)
    require(isinstance(got, list), 'convert_list: not a list')
    close(got, [w * f for w in x['l']], [1e-14 * abs(w * f) + 1e-290 for w in x['l']], 'convert_list')
    equal(call(units.convert, None, a, b), (None, None), 'convert of None')
    equal(call(units.units_class, a), U.CLASS[a], 'class of %s' % a)
    label(U.CLASS[a])
    nontrivial(U.SAME[a] is not U.SAME[b])


@sub('C21', g.rec(a=unit, b=unit, bad=st.sampled_from(BAD), v=st.one_of(st.none(), value), how=st.sampled_from(['cross', 'cross', 'class', 'unknown', 'empty', 'one empty']), cls=st.sampled_from(U.CLASSES),
                  swap=st.booleans(), e=st.sampled_from([[None, None], ['', ''], [None, ''], ['', None]])), 4000)
def rejected(x):
    a, b, v = x['a'], x['b'], x['v']
    if x['how'] == 'cross':
        if U.CLASS[a] == U.CLASS[b]:
            return
        if x['swap']:
            # each by itself is fine
            call(units.factor, a, a)
            call(units.convert, v, b, b)
        raises(ValueError, units.factor, a, b, _what='factor(%s, %s)' % (a, b))
        raises(ValueError, units.convert, v, a, b, _what='convert(%r, %s, %s)' % (v, a, b))
        raises(ValueError, units.convert, v, a, b, units_class=U.CLASS[a])
        raises(ValueError, units.convert_list, [v or 0, 1], a, b)
        raises(ValueError, units.convert_list, [], a, b)
    elif x['how'] == 'class':
        if v is not None and abs(v) > 10:
            # a class of which there are no units
            x = dict(x, cls=[x['cls'] + 's', x['cls'].title(), 'none', x['cls'][:-1]][x['swap'] + 2 * (v > 0)])
        b = U.BY_CLASS[U.CLASS[a]][x['v'].__hash__() % len(U.BY_CLASS[U.CLASS[a]])] if v is not None else a
        if x['cls'] == U.CLASS[a]:
            return
        if x['swap']:
            # asked before, without a class and with the right one
            near(call(units.factor, a, b), U.factor(a, b), U.tol(a, b), 'factor(%s, %s)' % (a, b))
            call(units.convert, v, a, b, U.CLASS[a])
            call(units.convert_list, [1], a, b)
        raises(ValueError, units.factor, a, b, units_class=x['cls'], _what='factor(%s, %s) with class %s' % (a, b, x['cls']))
        raises(ValueError, units.convert, v, a, b, x['cls'], _what='convert(%r, %s, %s) with class %s' % (v, a, b, x['cls']))
    elif x['how'] in ('unknown', 'one empty'):
        bad = x['bad'] if x['how'] == 'unknown' else x['e'][0]
        p, q = (bad, a) if x['swap'] else (a, bad)
        raises(KeyError, units.factor, p, q, _what='factor(%r, %r)' % (p, q))
        raises(KeyError, units.convert, v, p, q, _what='convert(%r, %r, %r)' % (v, p, q))
        if x['how'] == 'unknown':
            raises(KeyError, units.units_class, bad)
            raises(KeyError, units.raw, bad)
            raises(KeyError, units.factor, bad, bad)
            raises(KeyError, units.convert_to_default, v, bad, U.DEFAULTS['metric'])
    else:
        near(call(units.factor, *x['e']), 1.0, 0, 'factor without units')
        equal(call(units.convert, None, *x['e']), (None, None), 'convert of None without units')
        if v is not None:
            r = call(units.convert, v, *x['e'])
            near(r[0], v, 0, 'convert without units')
        equal(call(units.units_class, x['e'][0]), None, 'class of no units')
        equal(tuple(call(units.convert_to_default, v, x['e'][0], U.DEFAULTS['metric'])), (v, x['e'][0]), 'convert_to_default without units')
        equal(tuple(call(units.convert_to_system_default, v, x['e'][0])), (v, x['e'][0]), 'convert_to_system_default without units')
        for s in ('metric', 'united_states'):
            equal(tuple(call(units.convert_to_default, None, a, U.DEFAULTS[s])), (None, None), 'convert_to_default of None')
            equal(tuple(call(units.convert_to_system_default, None, a, s)), (None, None), 'convert_to_system_default of None')
    label(x['how'])
    nontrivial()


@st.composite
def requests(draw):
    out = []
    for _ in range(draw(st.integers(1, 8))):
        sys = draw(st.sampled_from(['metric', 'united_states', None, 'metric', 'united_states', 'imperial']))
        exc = {}
        for c in draw(st.lists(st.sampled_from(U.CLASSES), max_size=3, unique=True)):
            exc[c] = draw(st.sampled_from(U.BY_CLASS[c]))
        out.append({'sys': sys, 'exc': exc, 'how': draw(st.integers(0, 2)), 'spoil': draw(st.booleans()), 'u': draw(unit), 'v': draw(value)})
    return out


@sub('C21', g.rec(u=same_class(2), l=g.size(257, 5000).flatmap(g.nums), form=st.sampled_from(['list', 'tuple', 'array', 'integers', 'generator'])), 60, name='lists', shards=2, thorough=10)
def lists(x):
    """Long lists, and other sequences."""
    a, b = x['u']
    l = [int(round(y)) for y in x['l']] if x['form'] == 'integers' else x['l']
    f = U.factor(a, b)
    given = {'list': list, 'integers': list, 'tuple': tuple, 'array': np.array, 'generator': lambda l: (y for y in l)}[x['form']](l)
    got = call(units.convert_list, given, a, b)
    require(isinstance(got, list) and len(got) == len(l), 'convert_list: %s', type(got))
    w = np.array(l) * f
    close(np.array(got, dtype=float), w, (U.tol(a, b) + 1e-14) * np.abs(w) + 1e-290, 'convert_list')
    if x['form'] in ('list', 'integers'):
        exact(given, l, 'the list given')
    if x['form'] == 'array':
        r = call(units.convert, given, a, b)
        equal(r[1], b, 'units after convert of an array')
        close(r[0], w, (U.tol(a, b) + 1e-14) * np.abs(w) + 1e-290, 'convert of an array')
        exact(given, l, 'the array given')
    nontrivial(a != b)


@sub('C21', requests(), 3000)
def defaults(reqs):
    for r in reqs:
        sys, exc = r['sys'], r['exc']
        if sys == 'imperial':
            raises(KeyError, units.default_units, sys)
            raises(KeyError, units.convert_to_system_default, r['v'], r['u'], sys)
            continue
        want = dict(U.DEFAULTS[sys or 'metric'])
        args = () if sys is None else (sys,)
        if exc or r['how']:
            want.update(exc)
            given = dict(exc)
            got = call(units.default_units, *args, exceptions=given) if sys is None or r['how'] == 1 else call(units.default_units, sys, given)
            equal(given, exc, 'the exceptions given')
        else:
            got = call(units.default_units, *args)
        require(isinstance(got, dict), 'default_units: not a dict: %r', got)
        equal(dict(got), want, 'default units of %s with exceptions %r' % (sys, exc))
        # conversion to them
        c = U.CLASS[r['u']]
        res = call(units.convert_to_default, r['v'], r['u'], got)
        equal(res[1], want[c], 'units after convert_to_default')
        near(res[0], r['v'] * U.factor(r['u'], want[c]), U.tol(r['u'], want[c]) + 1e-15, 'convert_to_default')
        to = U.DEFAULTS[sys or 'metric'][c]
        res = call(units.convert_to_system_default, r['v'], r['u'], *args) if r['how'] != 2 or sys is None else call(units.convert_to_system_default, r['v'], r['u'], to_unit_system=sys)
        equal(res[1], to, 'units after convert_to_system_default')
        near(res[0], r['v'] * U.factor(r['u'], to), U.tol(r['u'], to) + 1e-15, 'convert_to_system_default')
        if r['spoil']:
            for k in list(got):
                got[k] = 'spoiled'
            got.pop('length')
    nontrivial(len(reqs) >= 2)


def agree(got, want, what):
    got = list(got)
    require(len(set(got)) == len(got), '%s: a name occurs twice: %r', what, got)
    # a new unit would be no error, a missing or misplaced one is
    require(set(want) <= set(got), '%s: %r are missing', what, sorted(set(want) - set(got)))
    require(not (set(U.ALL) & set(got)) - set(want), '%s: %r do not belong there', what, sorted((set(U.ALL) & set(got)) - set(want)))


@sub('C21', g.rec(c=st.sampled_from(U.CLASSES), spoil=st.booleans()), 300, shards=1)
def classes(x):
    agree(units.all_units, U.ALL, 'all units')
    agree(units.all_units_classes, U.CLASSES, 'classes')
    parts = [list(call(units.units_in_class, c)) for c in units.all_units_classes]
    require(sorted(sum(parts, [])) == sorted(units.all_units), 'the classes do not partition the units')
    for c, attr in [('length', 'lengths'), ('weight', 'weights'), ('angle', 'angles'), ('time', 'times'), ('time_rate', 'time_rates')]:
        got = call(units.units_in_class, c)
        agree(got, U.BY_CLASS[c], c)
        equal(sorted(getattr(units, attr)), sorted(got), attr)
        for u in got:
            equal(call(units.units_class, u), c, 'class of %s' % u)
        if x['spoil'] and c == x['c']:
            got.append('spoiled')
            del got[0]
    nontrivial()
