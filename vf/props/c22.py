"""C22 Values with units calculate and compare as physical quantities."""
import math
import operator

import numpy as np
from hypothesis import strategies as st

from blmath.value import Value
from .. import gen as g
from .. import units_ref as U
from ..core import A, call, ctx, equal, fail, label, nontrivial, raises, require, short
from ..registry import sub

RULE = 'Programs of up to 14 operations over values in any units, unitless values, numbers and lists, where each operation may use any earlier result; a model with separate numbers and units predicts each result or error; non-trivial when values in different units of a class were combined.'
ASSUMPTIONS = ['comparisons and floors which depend on rounding (within 1e-9 of a tie between different units) are not decided', 'arithmetic between a value and a plain number reads the number in the units of the value, as the tests state',
               'a mix of unitless values and values with units raises ValueError or KeyError']

NUMS = [0, 1, 2, 3, -1, -2, 0.5, 2.5, 25, 25.5, -25.5, 100, 0.1, 1e-3, 1e4, 72.4, 3.14159, 12, 60, 1e-13, -3e-10, 1e9, 123456789.25]
num = st.one_of(st.sampled_from(NUMS), st.sampled_from(NUMS), st.integers(-500, 500), st.floats(-1e4, 1e4, allow_nan=False).map(lambda x: round(x, 4)))
SYS = ['metric', 'united_states']

BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'floordiv': operator.floordiv}
INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv, 'floordiv': operator.ifloordiv}     # a new value as well
CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'gt': operator.gt, 'le': operator.le, 'ge': operator.ge}


@st.composite
def program(draw):
    c = draw(st.sampled_from(['length', 'length', 'weight', 'angle', 'time', 'time_rate']))
    leaves = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.integers(0, 11))
        u = None if k == 0 else draw(st.sampled_from(U.ALL)) if k == 1 else draw(st.sampled_from(U.BY_CLASS[c]))
        leaves.append([draw(num), u])
        if len(leaves) > 1 and draw(st.integers(0, 5)) == 0:
            # almost an earlier one
            n, u = leaves[draw(st.integers(0, len(leaves) - 2))]
            leaves[-1] = [n + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([1e-3, 1e-5, 1e-7, 1e-10])), u]
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(['add', 'sub', 'mul', 'div', 'floordiv', 'add', 'sub', 'cmp', 'cmp', 'unary', 'convert', 'attr', 'system', 'num', 'num', 'list', 'cast', 'round', 'bad', 'set', 'sum']))
        i, j = draw(st.integers(0, 30)), draw(st.integers(0, 30))
        if op in ('add', 'sub', 'mul', 'div', 'floordiv'):
            ops.append([op, i, j])
        elif op == 'cmp':
            ops.append([op, i, j, draw(st.sampled_from(sorted(CMP))), draw(st.sampled_from([None, None, None, 'num', 'near']))] + [draw(num)])
        elif op == 'unary':
            ops.append([op, i, draw(st.sampled_from(['neg', 'pos', 'abs', 'neg', 'abs']))])
        elif op in ('convert', 'attr'):
            ops.append([op, i, draw(st.sampled_from(U.ALL)) if j < 5 else draw(st.integers(0, 40))])
        elif op == 'system':
            ops.append([op, i, draw(st.sampled_from(SYS))])
        elif op == 'num':
            ops.append([op, i, draw(st.sampled_from(['add', 'sub', 'mul', 'div', 'floordiv', 'radd', 'rsub', 'rmul', 'rdiv', 'rfloordiv'])), draw(num)])
        elif op == 'list':
            ops.append([op, i, draw(st.sampled_from(['add', 'sub', 'mul', 'radd', 'rsub', 'rmul', 'array mul', 'tuple add'])), draw(st.lists(num, max_size=3)), draw(st.lists(st.integers(0, 30), max_size=2))])
        elif op == 'cast':
            ops.append([op, i, draw(st.sampled_from(['float', 'int', 'bool', 'item', 'repr', 'math']))])
        elif op == 'round':
            ops.append([op, i, draw(st.sampled_from([None, 0, 1, 2, -1, None, 0, 1, 2, -1, 3, -2, -3, -4]))])
        elif op == 'bad':
            ops.append([op, i, draw(st.sampled_from(['mod', 'pow', 'attr', 'convert', 'item', 'mul', 'none', 'rmod'])), j])
        elif op == 'set':
            ops.append([op, i, draw(num)])
        else:
            ops.append([op, draw(st.lists(st.integers(0, 30), min_size=1, max_size=4))])
    return {'leaves': leaves, 'ops': ops}


class Q(object):
    """The model: a number in some units, with the rounding it may carry."""
    def __init__(self, n, u, err=0.0):
        self.n, self.u, self.err = float(n), u, err

    def cls(self):
        return U.CLASS[self.u] if self.u else None


ERR = 1e-14


class Undecided(Exception):
    pass


class Mixed(Exception):
    pass


def conv(q, u):
    """q in units u. The table's own factor is used for pounds, stones and years (checked against their definitions by C21)."""
    if q.u == u:
        return q
    if q.u is None or u is None or q.cls() != U.CLASS[u]:
        raise Mixed()
    from blmath import units
    f = units.factor(q.u, u)
    if abs(f - U.factor(q.u, u)) > 1e-5 * f:
        fail('factor(%s, %s) is %r', q.u, u, f)
    return Q(q.n * f, u, q.err * f + abs(q.n * f) * ERR)


def match(got, q, what):
    require(isinstance(got, Value), '%s: not a Value: %s', what, short(got))
    require(isinstance(got.value, float), '%s: the number is %s', what, short(got.value))
    require(got.units == q.u, '%s: units %r, expected %r', what, got.units, q.u)
    require(abs(got.value - q.n) <= q.err + ERR * abs(q.n) + 1e-290 or got.value == q.n, '%s: %r %s, expected %r', what, got.value, got.units, q.n)


def combine(op, a, b):
    """The model of a op b, both quantities."""
    if op == 'mul':
        raise ValueError
    b2 = conv(b, a.u)
    if op == 'add':
        return Q(a.n + b2.n, a.u, a.err + b2.err + ERR * (abs(a.n) + abs(b2.n)))
    if op == 'sub':
        return Q(a.n - b2.n, a.u, a.err + b2.err + ERR * (abs(a.n) + abs(b2.n)))
    if abs(b2.n) <= 1e3 * b2.err or b2.n == 0:
        raise Undecided()
    r = a.n / b2.n
    err = (a.err + abs(r) * b2.err) / (abs(b2.n) - b2.err) + ERR * abs(r)
    if op == 'div':
        return Q(r, None, err)
    return floor(a, b2, None)


def floor(a, b, u):
    r = a.n / b.n
    if a.err == 0 and b.err == 0:
        return Q(a.n // b.n, u)
    if not np.isfinite(r) or abs(r - round(r)) < 1e-9 * max(1, abs(r)):
        raise Undecided()
    return Q(math.floor(r), u)


def scalar(op, q, x):
    e = ERR * (abs(q.n) + abs(x))
    if op in ('add', 'radd'):
        return Q(q.n + x, q.u, q.err + e)
    if op == 'sub':
        return Q(q.n - x, q.u, q.err + e)
    if op == 'rsub':
        return Q(x - q.n, q.u, q.err + e)
    if op in ('mul', 'rmul'):
        return Q(q.n * x, q.u, (q.err + ERR * abs(q.n)) * abs(x))
    if x == 0:
        raise Undecided()
    if op == 'div':
        return Q(q.n / x, q.u, (q.err + ERR * abs(q.n)) / abs(x))
    return floor(q, Q(x, None), q.u)


EXTREME = [1e308, -1.5e308, 1e300, 3e200, 1e155, 1e16, 3.0, 0.1, -7.0, 1e-16, 1e-160, -1e-300, 2.5e-308, 5e-324, 0.0]


@sub('C22', g.rec(a=st.sampled_from(EXTREME), b=st.sampled_from(EXTREME), u=st.sampled_from(U.ALL + [None]), op=st.sampled_from(['add', 'sub', 'mul', 'div', 'floordiv', 'cmp']), both=st.booleans(), rev=st.booleans()), 2000)
def extremes(x):
    """The largest and smallest numbers, in one unit: the same as the numbers alone."""
    a, b, op = x['a'], x['b'], x['op']
    v = call(Value, a, x['u'])
    w = call(Value, b, x['u']) if x['both'] else b
    if op == 'cmp':
        for o in sorted(CMP):
            equal(bool(call(CMP[o], v, w)), CMP[o](a, b), '%r %s %r' % (a, o, b))
        return nontrivial()
    f = BIN[op]
    if x['both'] and op == 'mul' or op in ('div', 'floordiv') and b == 0:
        return
    p, q, m, n = v, w, a, b
    if x['rev'] and op in ('add', 'sub', 'mul') and not x['both']:
        p, q, m, n = w, v, b, a
    what = '%r %s %r %s' % (m, op, n, x['u'])
    want = f(m, n)
    got = call(f, p, q)
    require(isinstance(got, Value), '%s: %s', what, short(got))
    equal(got.units, None if op in ('div', 'floordiv') and x['both'] else x['u'], what + ': units')
    ok = got.value == want or np.isnan(want) and np.isnan(got.value) or abs(got.value - want) <= 1e-14 * abs(want) + 1e-322
    require(ok, '%s: %r, expected %r', what, got.value, want)
    nontrivial(np.isfinite(want) and want != 0)


@sub('C22', program(), 5000)
def expressions(p):
    vals = [call(Value, n, u) if u is not None else call(Value, n) for n, u in p['leaves']]
    model = [Q(n, u) for n, u in p['leaves']]
    for v, q in zip(vals, model):
        match(v, q, 'construction')
    mixed_units = False
    for op in p['ops']:
        k = op[0]
        if k == 'sum':
            idx = [i % len(vals) for i in op[1]]
            args = [vals[i] for i in idx]
            want = Q(0 + model[idx[0]].n, model[idx[0]].u, model[idx[0]].err)
            try:
                for i in idx[1:]:
                    want = combine('add', want, model[i])
            except Mixed:
                raises((ValueError, KeyError), sum, args, _what='a sum over classes of units')
                continue
            match(call(sum, args), want, 'sum')
            continue
        i = op[1] % len(vals)
        v, q = vals[i], model[i]
        what = '%s of %r %s' % (k, q.n, q.u)
        new = None
        if k in BIN:
            j = op[2] % len(vals)
            w, r = vals[j], model[j]
            what = '%r %s %s %r %s' % (q.n, q.u, k, r.n, r.u)
            try:
                want = combine(k, q, r)
            except Undecided:
                continue
            except ValueError:
                raises(ValueError, BIN[k], v, w, _what=what)
                label('rejected')
                continue
            except Mixed:
                raises((ValueError, KeyError), BIN[k], v, w, _what=what)
                label('rejected')
                continue
            mixed_units |= q.u != r.u
            new = call((INPLACE if op[1] % 3 == 0 else BIN)[k], v, w)
            match(new, want, what)
        elif k == 'cmp':
            f = CMP[op[3]]
            if op[4] in ('num', 'near'):
                x = op[5]
                if op[4] == 'near':
                    x = q.n + math.copysign([1e-3, 1e-5, 1e-7, 1e-9, 0.0][int(abs(x)) % 5], x)
                if q.err and abs(q.n - x) <= 1e-9 * (abs(q.n) + abs(x)):
                    continue
                got, got2 = call(f, v, x), call(f, x, v)
                require(bool(got) == f(q.n, x), '%r %s %s %r: %r', q.n, q.u, op[3], x, got)
                require(bool(got2) == f(x, q.n), '%r %s %r %s: %r', x, op[3], q.n, q.u, got2)
                continue
            j = op[2] % len(vals)
            w, r = vals[j], model[j]
            what = '%r %s %s %r %s' % (q.n, q.u, op[3], r.n, r.u)
            try:
                r2 = conv(r, q.u)
            except Mixed:
                raises((ValueError, KeyError), f, v, w, _what=what)
                label('rejected')
                continue
            if (q.err or r2.err) and abs(q.n - r2.n) <= 1e-9 * (abs(q.n) + abs(r2.n)):
                continue
            got = call(f, v, w)
            require(isinstance(got, (bool, np.bool_)), '%s: %r', what, got)
            require(bool(got) == f(q.n, r2.n), '%s: %r', what, got)
            mixed_units |= q.u != r.u
        elif k == 'unary':
            f = {'neg': operator.neg, 'pos': operator.pos, 'abs': operator.abs}[op[2]]
            want = Q({'neg': -q.n, 'pos': q.n, 'abs': abs(q.n)}[op[2]], q.u, q.err)
            new = call(f, v)
            match(new, want, op[2])
        elif k in ('convert', 'attr', 'system'):
            if k == 'system':
                if q.u is None:
                    continue
                to = U.DEFAULTS[op[2]][q.cls()]
            else:
                to = op[2] if isinstance(op[2], str) else U.BY_CLASS[q.cls()][op[2] % len(U.BY_CLASS[q.cls()])] if q.u else 'cm'
            what = '%s of %r %s to %s' % (k, q.n, q.u, to)
            run = (lambda: call(v.convert, to)) if k == 'convert' else (lambda: call(getattr, v, to)) if k == 'attr' else (lambda: call(v.convert_to_system_default, op[2]))
            try:
                want = conv(q, to)
            except Mixed:
                if k == 'attr':
                    raises(ValueError, getattr, v, to, _what=what)
                else:
                    raises(ValueError, v.convert, to, _what=what)
                label('rejected')
                continue
            new = run()
            match(new, want, what)
        elif k == 'num':
            x = op[3]
            o = op[2]
            what = '%r %s %s %r' % (q.n, q.u, o, x)
            if o in ('rdiv', 'rfloordiv'):
                raises(ValueError, BIN[o[1:]], x, v, _what=what)
                continue
            try:
                want = scalar(o, q, x)
            except Undecided:
                continue
            f = BIN[o.lstrip('r') if o[0] == 'r' else o]
            new = call(f, x, v) if o[0] == 'r' else call(INPLACE[o] if op[1] % 3 == 0 else f, v, x)
            match(new, want, what)
        elif k == 'list':
            items, wants = list(op[3]), []
            o = op[2]
            base = o.split(' ')[-1]
            if base[0] == 'r':
                base = base[1:]
            rev = o[0] == 'r'
            ok = True
            for x in op[3]:
                wants.append(scalar('rsub' if o == 'rsub' else base, q, x))
            if base != 'mul':
                for m in op[4]:
                    items.append(vals[m % len(vals)])
                    other = model[m % len(vals)]
                    try:
                        wants.append(combine('sub', other, q) if o == 'rsub' else combine(base, q, other))
                    except Mixed:
                        ok = False
            items = tuple(items) if o == 'tuple add' else np.array(op[3]) if o == 'array mul' else items
            args = (items, v) if rev else (v, items)
            what = '%r %s %s %s' % (q.n, q.u, o, short(op[3]))
            if not ok:
                raises((ValueError, KeyError), BIN[base], *args, _what=what)
                continue
            got = call(BIN[base], *args)
            require(isinstance(got, list) and len(got) == len(wants), '%s: %s', what, short(got))
            for a, b in zip(got, wants):
                match(a, b, what)
            label('list')
        elif k == 'cast':
            o = op[2]
            if o == 'float':
                got = call(float, v)
                require(type(got) is float and got == v.value, 'float: %r', got)
            elif o == 'int':
                got = call(int, v)
                require(type(got) is int and got == int(v.value), 'int: %r', got)
            elif o == 'bool':
                got = call(bool, v)
                require(got is (v.value != 0), 'truth of %r: %r', v.value, got)
            elif o == 'item':
                equal(call(operator.getitem, v, 0), v.value, 'item 0')
                equal(call(operator.getitem, v, 1), q.u, 'item 1')
                raises((KeyError, IndexError), operator.getitem, v, 2)
            elif o == 'repr':
                s = call(str, v)
                equal(s, '%f %s' % (v.value, q.u), 'str')
                require(isinstance(call(repr, v), str), 'repr')
            else:
                got = call(math.floor, float(v))
                equal(got, math.floor(v.value), 'floor')
        elif k == 'round':
            got = call(round, v) if op[2] is None else call(round, v, op[2])
            match(got, Q(round(v.value, op[2] or 0), q.u), 'round(%r, %r)' % (v.value, op[2]))
        elif k == 'bad':
            o = op[2]
            w = vals[op[3] % len(vals)]
            if o == 'mod':
                raises((AttributeError, TypeError, ValueError), operator.mod, v, 2)
                raises((AttributeError, TypeError, ValueError), operator.mod, v, w)
            elif o == 'rmod':
                raises((AttributeError, TypeError, ValueError), operator.mod, 7, v)
            elif o == 'pow':
                raises((AttributeError, TypeError, ValueError), operator.pow, v, 2)
            elif o == 'attr':
                for name in ('mugglemeters', 'cms', 'metric', 'length'):
                    raises(AttributeError, getattr, v, name)
            elif o == 'convert':
                raises((KeyError, ValueError), v.convert, 'mugglemeters')
            elif o == 'item':
                raises((KeyError, IndexError), operator.getitem, v, -1)
            elif o == 'mul':
                raises(ValueError, operator.mul, v, w)
                raises(ValueError, operator.mul, v, [1, w])
            else:
                raises(ValueError, Value, None, 'cm')
                raises(ValueError, Value, 1, 'mugglemeters')
                raises(ValueError, setattr, v, 'value', None)
        elif k == 'set':
            # a copy of a value is assigned another number, and behaves as it
            new = call(Value, q.n, q.u)
            # everything which might be kept is read before and after
            u, others = q.u, U.BY_CLASS[q.cls()] if q.u else []
            for step in range(3):
                want = Q([q.n, op[2], op[2]][step], u)
                if step == 1:
                    new.value = op[2]
                if step == 2 and others:
                    u = others[i % len(others)]
                    new.units = u
                    want = Q(op[2], u)
                match(new, want, 'assigned number')
                equal(float(new), want.n, 'float of the assigned number')
                equal(str(new), '%f %s' % (want.n, u), 'str of the assigned number')
                for o in others[:2] + others[-1:]:
                    match(getattr(new, o), conv(want, o), 'the assigned number in other units')
                    match(new.convert(o), conv(want, o), 'the assigned number converted')
                if others:
                    require(new.prettified == Value(want.n, u).prettified, 'prettified after assigning: %r', new.prettified)
                    match(new.convert_to_system_default('metric'), conv(want, U.DEFAULTS['metric'][q.cls()]), 'the assigned number in default units')
            vals.append(new)
            model.append(Q(op[2], u))
            continue
        if new is not None:
            require(np.isfinite(new.value), '%s: %r', what, new.value)
            if abs(new.value) < 1e12:
                vals.append(new)
                model.append(Q(new.value, want.u))     # later operations start from this number
        match(v, q, 'an operand after %s' % what)
    for v, q in zip(vals, model):
        require(v.value == q.n and v.units == q.u, 'a value has changed from %r %s to %r %s', q.n, q.u, v.value, v.units)
    nontrivial(mixed_units)
