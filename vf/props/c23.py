"""C23 Rounding and prettifying give the nearest increment in every unit."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from blmath import units
from blmath.numerics import round_to, rounded_list
from blmath.value import Value
from .. import gen as g
from .. import units_ref as U
from ..core import A, call, equal, fail, label, nontrivial, require, short
from ..registry import sub

RULE = 'Numbers from 1e-6 to 1e13 (also exact multiples and halves of the increment and their neighbours) rounded to any increment or number of decimals, alone, in Values of any unit and in lists; non-trivial when the number is no multiple of the increment.'
ASSUMPTIONS = ['exactly half way (up to 1e-9 of an increment) either neighbour is accepted']

INCR = [0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 0.01, 0.001, 5, 10, 1, 3, 7, 0.125, 0.2, 0.3, 0.7, 1.5, 100, 12.0, 1e-4, 0.0254, 2.54]


@st.composite
def number(draw, incr, big=False):
    k = draw(st.integers(0, 5))
    if k <= 1:
        m = draw(st.integers(-2000, 2000))
        x = (m + draw(st.sampled_from([0.0, 0.5, 0.25, -0.4999, 0.4999, 0.501, 0.1]))) * incr
    elif k == 2:
        x = draw(st.integers(-10000, 10000))
    elif k == 3:
        x = draw(st.floats(-1e6, 1e6, allow_nan=False))
    elif big and draw(st.booleans()):
        x = draw(st.one_of(st.integers(-10 ** 13, 10 ** 13), st.floats(-1e13, 1e13, allow_nan=False), st.integers(-10 ** 15, 10 ** 15).map(lambda i: i / 100.0), st.integers(-10 ** 11, 10 ** 11).map(lambda i: i * 0.1)))
    else:
        x = draw(st.integers(-10 ** 7, 10 ** 7)) / draw(st.sampled_from([1000.0, 100.0, 7.0, 1e5]))
    return x


@st.composite
def rounding(draw):
    incr = draw(st.sampled_from(INCR)) if draw(st.integers(0, 3)) else draw(st.floats(0.01, 20.0, allow_nan=False)) if draw(st.booleans()) else 1.0 / draw(st.integers(2, 40)) + draw(st.sampled_from([1e-3, 1e-4, -1e-4, 1e-5, 1e-7]))
    return {'x': draw(number(incr, True)), 'incr': incr, 'u': draw(st.sampled_from(U.ALL + [None]))}


def nearest(got, x, incr, slack, what):
    """got is a multiple of incr, at most half of it from x (known to slack)."""
    require(isinstance(got, (int, float, np.floating)) and not isinstance(got, bool), '%s: %s', what, short(got))
    k = got / incr
    require(abs(k - round(k)) <= 1e-9 + 1e-15 * abs(k), '%s: %r is no multiple of %r', what, got, incr)
    require(abs(got - x) <= incr / 2 * (1 + 1e-9) + slack + 1e-12 * abs(x), '%s: %r is not the multiple of %r nearest to %r', what, got, incr, x)
    n = 1.0 / incr
    if n == round(n) and 1.0 / n == incr and abs(round(k)) < 2 ** 52:
        want = float(Fraction(int(round(k)), int(n)))
        require(float(got) == want, '%s: %r, not the float closest to %d/%d', what, got, round(k), n)


@sub('C23', rounding(), 6000)
def round_to_(c):
    x, incr = c['x'], c['incr']
    got = call(round_to, x, incr)
    nearest(got, x, incr, 0, 'round_to(%r, %r)' % (x, incr))
    v = Value(x, c['u'])
    for what, r in (('round_to of a Value', call(round_to, v, incr)), ('Value.round', call(v.round, incr))):
        require(isinstance(r, Value), '%s: %s', what, short(r))
        equal(r.units, c['u'], what + ': units')
        require(r.value == float(got), '%s: %r, and %r for the number', what, r.value, got)
    require(v.value == float(x) and v.units == c['u'], 'the Value has changed')
    k = x / incr
    nontrivial(abs(k - round(k)) > 1e-9)


@sub('C23', g.rec(items=g.size(257, 5000).flatmap(g.nums).map(lambda l: [None if i % 97 == 5 else x for i, x in enumerate(l)]), p=st.sampled_from([None, 0, 1, 2, 4, -1]), how=st.sampled_from(['list', 'tuple', 'iterator', 'values'])), 24, name='rounded_list_many', purity=False, shards=2, thorough=10)
@sub('C23', g.rec(items=st.lists(st.one_of(st.none(), st.integers(-5000, 5000), st.integers(-10 ** 7, 10 ** 7).map(lambda i: i / 10000.0), st.integers(-10 ** 7, 10 ** 7).map(lambda i: i / 7.0), st.integers(-10 ** 15, 10 ** 15).map(lambda i: i / 700.0), st.integers(-10 ** 15, 10 ** 15)), max_size=8),
                  p=st.sampled_from([None, 0, 1, 2, 3, 4, 6, 7, 9, -1, -2]), how=st.sampled_from(['list', 'tuple', 'iterator', 'values'])), 4000)
def rounded_list_(c):
    items, p = c['items'], c['p']
    u = [None if x is None else Value(x, 'cm') for x in items]
    arg = items if c['how'] == 'list' else tuple(items) if c['how'] == 'tuple' else u if c['how'] == 'values' else None
    run = lambda: iter(items) if arg is None else arg
    f = call if arg is not None else lambda fn, *a, **k: fn(*a, **k)
    r = f(rounded_list, run()) if p is None else f(rounded_list, run(), p) if len(items) % 2 else f(rounded_list, run(), precision=p)
    require(isinstance(r, list) and len(r) == len(items), 'rounded_list: %s', short(r))
    incr = 10.0 ** -(p or 0)
    for x, y in zip(items, r):
        if x is None:
            require(y is None, 'None became %r', y)
            continue
        if c['how'] == 'values':
            require(isinstance(y, Value) and y.units == 'cm', 'a Value became %r', y)
            y = y.value
        require(isinstance(y, (int, float)), '%r became %r', x, y)
        require(abs(y - x) <= incr / 2 * (1 + 1e-9) + 1e-12 * abs(x), '%r was rounded to %r, with %r decimals', x, y, p)
        require(y == float(Fraction(round(Fraction(y) / Fraction(10) ** -(p or 0))) * Fraction(10) ** -(p or 0)), '%r was rounded to %r, which has more than %r decimals', x, y, p)
    label(c['how'])
    nontrivial(any(x is not None for x in items) and None in items)


DEFAULT_INCR = {'cm': 0.5, 'in': 0.25, 'kg': 0.5, 'lb': 1.0, 'yr': 1.0}


@st.composite
def pretty(draw):
    u = draw(st.one_of(st.sampled_from(U.ALL), st.sampled_from(U.BY_CLASS['length']), st.sampled_from(['cm', 'in', 'kg', 'lb', 'yr', 'deg']), st.just(None)))
    p = draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 6, 7, 9, -1, -2]))
    # a number of a sensible size in the default units, which may lie near a step there
    s = draw(st.sampled_from(sorted(U.DEFAULTS)))
    if u is None:
        x = draw(number(0.1))
    else:
        d = U.DEFAULTS[s][U.CLASS[u]]
        x = draw(number(DEFAULT_INCR.get(d, 0.1) if p is None else 10.0 ** -p)) * U.factor(d, u)
        if draw(st.integers(0, 3)) == 0:
            x = draw(number(0.1))
    return {'x': x, 'u': u, 'p': p, 'pos': draw(st.booleans()), 'value': draw(st.booleans())}


@sub('C23', pretty(), 6000)
def prettify(c):
    x, u, p = c['x'], c['u'], c['p']
    if c['value']:
        p = None
        v = Value(x, u)
        r = call(getattr, v, 'prettified')
        label('Value.prettified')
    else:
        r = call(units.prettify, x, u) if p is None else call(units.prettify, x, u, p) if c['pos'] else call(units.prettify, x, u, precision=p)
        label('prettify')
    require(isinstance(r, tuple) and len(r) == 4, 'prettify(%r, %r): %s', x, u, short(r))
    off = False
    for (got, unit), system in zip(((r[0], r[1]), (r[2], r[3])), ('metric', 'united_states')):
        if u is None:
            equal(unit, None, 'units')
            t = float(x)
        else:
            equal(unit, U.DEFAULTS[system][U.CLASS[u]], 'the %s units' % system)
            f = units.factor(u, unit)
            require(abs(f / U.factor(u, unit) - 1) <= U.tol(u, unit), 'factor(%s, %s) is %r', u, unit, f)
            t = x * f
        incr = DEFAULT_INCR.get(unit, 0.1) if p is None else 10.0 ** -p
        nearest(got, t, incr, 1e-12 * abs(t), 'prettify(%r, %r, %r) in %s' % (x, u, p, unit))
        off |= abs(got - t) > 1e-9 * incr
    nontrivial(off)
