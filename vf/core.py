"""The checking context: what an oracle uses to call the code under test and to state what must hold.

An oracle is a function of one generated case (plain JSON data). It calls the repository's code through
`call`, compares with `close`, `exact`, `require`, `raises`, and describes the case with `label` and `nontrivial`.
A property is violated when one of these raises Violation, when the code under test raises where it should
succeed, or when a result cannot be used at all (wrong type or structure).
"""
import copy
import decimal
import math
import warnings
import zlib

import numpy as np


class Violation(Exception):
    pass


class PurityViolation(Exception):
    pass


class Ctx(object):
    def __init__(self):
        self.purity = False
        self.server = None      # makes calls in a process with no history
        self.always = False     # the sweep makes every kind of call every time
        self.reset_run()

    def reset_run(self):
        self.labels = {}
        self.nontrivial = False
        self.records = []
        self.rec_count = 0
        self.calls = 0
        self.fresh = 0


ctx = Ctx()


def label(name):
    ctx.labels[name] = ctx.labels.get(name, 0) + 1


def nontrivial(flag=True):
    if flag:
        ctx.nontrivial = True


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    ok = False
    try:
        ok = bool(cond)
    except Exception as e:
        raise Violation('%s: cannot be decided: %s' % (msg, e))
    if not ok:
        raise Violation(msg % args if args else msg)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def num_array(got, what, shape=None, ndarray=False):
    """The result as a float array, or a violation if it is not one (of the given shape)."""
    if ndarray and not isinstance(got, np.ndarray):
        fail('%s: expected an array, got %s', what, short(got))
    try:
        g = np.asarray(got)
        if g.dtype == object or g.dtype.kind not in 'biuf':
            fail('%s: not a real numeric array: %s', what, short(got))
        g = g.astype(np.float64)
    except Violation:
        raise
    except Exception as e:
        fail('%s: not numeric: %s (%s)', what, short(got), e)
    if shape is not None and g.shape != tuple(shape):
        fail('%s: shape %s, expected %s; got %s', what, g.shape, tuple(shape), short(got))
    return g


def close(got, want, tol, what, ndarray=False):
    w = np.asarray(want, dtype=np.float64)
    g = num_array(got, what, w.shape, ndarray)
    t = np.broadcast_to(np.asarray(tol, dtype=np.float64), w.shape)
    nan = np.isnan(w)
    with np.errstate(all='ignore'):
        bad = np.where(nan, ~np.isnan(g), ~((np.abs(g - w) <= t) | (g == w)))
    if np.any(bad):
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if w.ndim else ()
        fail('%s: got %r, expected %r (tolerance %.3g)%s; whole result %s, expected %s', what, float(g[i]), float(w[i]), float(t[i]),
             ' at %s' % (i,) if w.ndim else '', short(g.tolist()), short(w.tolist()))
    return g


def exact(got, want, what):
    """Same numbers and same shape, no tolerance."""
    return close(got, want, 0.0, what)


def equal(got, want, what):
    """Plain Python equality, for strings, tuples, None, dicts, ints."""
    try:
        ok = type(want)(got) == want if isinstance(want, (int, str)) and not isinstance(want, bool) and not isinstance(got, type(want)) and isinstance(got, (int, np.integer, str)) else got == want
        ok = bool(ok)
    except Exception as e:
        fail('%s: cannot compare %s with %s: %s', what, short(got), short(want), e)
    if not ok:
        fail('%s: got %s, expected %s', what, short(got), short(want))


class Raised(object):
    def __init__(self, e):
        self.e = e


def raises(exc, fn, *args, **kwargs):
    """The call must be rejected with one of the given exceptions."""
    what = kwargs.pop('_what', None) or getattr(fn, '__name__', str(fn))
    try:
        r = call(fn, *args, **kwargs)
    except PurityViolation:
        raise
    except exc as e:
        return e
    except Exception as e:
        fail('%s: raised %s(%s), expected %s', what, type(e).__name__, e, exc)
    fail('%s: returned %s, expected %s to be raised', what, short(r), exc)


# ---------------------------------------------------------------- calls, and the purity sweep built on them

def _is_sparse(x):
    return hasattr(x, 'tocoo') and hasattr(x, 'nnz')


def canon(x, depth=0):
    """A comparable snapshot of a value: equal before and after means unchanged."""
    if depth > 8:
        return '...'
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, np.integer)):
        return ('n', float(x)) if abs(int(x)) < 2 ** 53 else ('i', int(x))
    if isinstance(x, (float, np.floating)):
        return ('n', float(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('oa', x.shape, tuple(canon(y, depth + 1) for y in x.ravel().tolist()))
        return ('a', str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes(), x.copy(), x.flags.writeable)
    if _is_sparse(x):
        c = x.tocoo()
        order = np.lexsort((c.data, c.col, c.row))
        return ('sp', x.shape, str(x.dtype), canon(np.asarray(c.row[order], dtype=np.int64)), canon(np.asarray(c.col[order], dtype=np.int64)), canon(c.data[order]))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(y, depth + 1) for y in x))
    if isinstance(x, dict):
        return ('d', tuple(sorted(((str(k), canon(v, depth + 1)) for k, v in x.items()), key=lambda kv: kv[0])))
    if isinstance(x, type({}.keys())) or isinstance(x, type({}.values())):
        return ('keys', tuple(canon(y, depth + 1) for y in x))
    if isinstance(x, complex):
        return ('c', repr(x))
    if callable(x) and not hasattr(x, '__dict__'):
        return ('f', getattr(x, '__name__', '?'))
    if isinstance(x, type) or callable(x) and hasattr(x, '__name__'):
        return ('f', getattr(x, '__name__', '?'))
    d = getattr(x, '__dict__', None)
    if d is not None and not type(x).__module__.startswith('blmath'):
        return ('t', type(x).__name__)
    if d is not None:
        return ('obj', type(x).__name__, {str(k): canon(v, depth + 1) for k, v in d.items() if k != 'prettified'})
    return ('r', repr(x))


def same(a, b, rel):
    """Compare two snapshots; floating results up to rounding (rel=0: exactly)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == 'a' and b[0] == 'a':
            if a[1] != b[1] or a[2] != b[2] or rel == 0 and a[5] != b[5]:
                return False
            if a[3] == b[3]:
                return True
            if rel == 0 or a[4].dtype.kind != 'f':
                return bool(np.array_equal(a[4], b[4], equal_nan=a[4].dtype.kind == 'f'))
            m = np.nanmax(np.abs(a[4][np.isfinite(a[4])])) if np.any(np.isfinite(a[4])) else 0.0
            return bool(np.allclose(a[4], b[4], rtol=rel, atol=rel * m, equal_nan=True))
        if a and a[0] == 'n' and b[0] == 'n':
            return a[1] == b[1] or (math.isnan(a[1]) and math.isnan(b[1])) or abs(a[1] - b[1]) <= rel * max(abs(a[1]), abs(b[1]))
        if a and a[0] == 'obj' and b[0] == 'obj' and len(a) == 3 and isinstance(a[2], dict) and isinstance(b[2], dict):
            # a private attribute may be filled in when it is first needed; whether it is right shows in what the object does
            a2 = {k: v for k, v in a[2].items() if not (k.startswith('_') and v is None)}
            return a[1] == b[1] and all(k in b[2] and same(v, b[2][k], rel) for k, v in a2.items()) and all(k in a[2] or k.startswith('_') for k in b[2])
        return all(same(x, y, rel) for x, y in zip(a, b))
    return a == b


def scribble(x, depth=0):
    """Overwrite a result in place, as its owner may."""
    if depth > 4:
        return
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'fiu':
            x[...] = 77
    elif _is_sparse(x):
        scribble(getattr(x, 'data', None), depth + 1)
    elif isinstance(x, list):
        for y in x:
            scribble(y, depth + 1)
        x.append('scribble')
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y, depth + 1)
        for k in list(x):
            x[k] = 'scribble'
        x['scribble'] = 1
    elif type(x).__module__.startswith('blmath') and hasattr(x, '__dict__'):
        for y in list(vars(x).values()):
            scribble(y, depth + 1)


def _run(fn, args, kwargs):
    try:
        return fn(*args, **kwargs)
    except Exception as e:
        return Raised(e)


def _snap(r):
    return ('raised', type(r.e).__name__) if isinstance(r, Raised) else canon(r)


def nearby(x, how, depth=0):
    """Change the floating numbers of an argument, in place where it can be, by a little."""
    if depth > 3:
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.size:
        y = np.array(x)
        if how:
            y *= 1 + 4e-6
        else:
            y.flat[y.size // 2] += 4e-6
        return y
    if type(x) in (list, tuple):
        return type(x)(nearby(y, how, depth + 1) for y in x)
    if type(x) is float:
        return x * (1 + 4e-6)
    return x


REL = 1e-7
# methods whose result is a part of the object: a point of a polyline, and its edges
OWN = ('apex', 'to_dict')
# functions which return what they were given, a part of it or a view of it, or an object which keeps it
VIEWS = ('getattr normal', 'getattr reference_point', 'Box', 'Plane', 'Plane.from_points', 'Plane.from_points_and_vector', 'Polyline', 'StaticBlockSparseMatrix', 'apex', 'farthest', 'line_intersect3', 'as_numeric_array', 'row', 'col', 'np_reshape_safe',
         'convert_44_to_33', 'convexify_planar_curve', 'convexify_and_flatten_planar_curve', 'translation', 'block_sparse_cg_solve', 'StaticBlockSparseMatrix.conjGradSolve')


def _perform(fn, bound, pack):
    f = (getattr(pack[0], fn if isinstance(fn, str) else fn.__name__)) if bound else fn
    return _run(f, pack[1], pack[2])


def answer(request):
    """In the child of the server: the snapshot of the result."""
    return (_snap(_perform(*request)),)


PRINT = dict(precision=8, threshold=1000, edgeitems=3, linewidth=75, suppress=False)
FP = dict(divide='warn', over='warn', under='ignore', invalid='warn')


def _settings():
    return np.geterr(), np.get_printoptions(), (decimal.getcontext().prec, decimal.getcontext().rounding), list(warnings.filters)


def _watched(name, run, pack, seed):
    """Run with the process-wide settings at known values, which must be the same afterwards. Also gives the random state it leaves."""
    saved, err, shown = np.random.get_state(), np.seterr(**FP), np.get_printoptions()
    np.set_printoptions(**PRINT)
    try:
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.filterwarnings('ignore', message='(?s).*')
            np.random.seed(seed % 2 ** 32)
            before = _settings()
            r = run(pack)
            after = _settings()
        state = np.random.get_state()
        state = (state[1].tobytes(), state[2])
    finally:
        np.seterr(**err)
        np.set_printoptions(**shown)
        np.random.set_state(saved)
    for b, a, what in zip(before, after, ('floating-point error handling of numpy', 'print options of numpy', 'decimal context', 'warning filters')):
        if b != a:
            raise PurityViolation('%s changed the %s of the process: %s to %s' % (name, what, short(b), short(a)))
    return r, state


def _one_object(name, run, keep):
    """An array given for two arguments at once is as good as two equal arrays."""
    args = keep[1]
    where = [i for i, x in enumerate(args) if isinstance(x, np.ndarray)]
    for n, i in enumerate(where):
        for j in where[n + 1:]:
            if args[i].shape != args[j].shape or args[i].dtype != args[j].dtype:
                continue
            first, second = copy.deepcopy(keep), copy.deepcopy(keep)
            a1, a2 = list(first[1]), list(second[1])
            a1[j] = a1[i]
            a2[j] = np.array(a2[i])
            r1, r2 = run((first[0], a1, first[2])), run((second[0], a2, second[2]))
            if not same(_snap(r1), _snap(r2), REL):
                raise PurityViolation('%s gave different results for the same array as arguments %d and %d and for equal ones, %s: %s and %s' % (name, i + 1, j + 1, short(args[i]), short(r1), short(r2)))
            before = canon(args[i])
            if not same(before, canon(a1[i]), 0):
                raise PurityViolation('%s changed the array given as arguments %d and %d: %s' % (name, i + 1, j + 1, short(args[i])))
            if name not in VIEWS:
                scribble(r1)
                if not same(before, canon(a1[i]), 0):
                    raise PurityViolation('changing the result of %s in place changed the array given as arguments %d and %d: %s' % (name, i + 1, j + 1, short(args[i])))
            return


def call(fn, *args, **kwargs):
    ctx.calls += 1
    if not ctx.purity:
        return fn(*args, **kwargs)
    if type(fn).__module__.startswith('blmath') and hasattr(fn, '__call__'):
        fn = fn.__call__        # an object which is called: its state belongs to the arguments
    name = getattr(fn, '__qualname__', getattr(fn, '__name__', str(fn)))
    owner = getattr(fn, '__self__', None)
    bound = owner is not None and type(owner).__module__.startswith('blmath') and not isinstance(owner, type) and type(owner).__name__ != 'Units'
    base = (owner if bound else None, args, kwargs)
    try:
        keep = copy.deepcopy(base)
        before = canon(keep)
    except Exception:
        return fn(*args, **kwargs)

    def run(pack):
        return _perform(fn, bound, pack)

    # which of the rarer calls are made depends on the arguments only, so that a case can be made again
    h = zlib.crc32(repr((name, before)).encode())
    if ctx.always or h % 3 == 0:
        # what it gives for slightly other numbers, or in what way it fails, must make no difference to what follows
        pn = copy.deepcopy(keep)
        run((pn[0], nearby(pn[1], h >> 4 & 1), pn[2]))
    p1 = copy.deepcopy(keep)
    r1, state1 = _watched(name, run, p1, h)
    if not same(before, canon(p1), 0):
        raise PurityViolation('%s changed its arguments: before %s, after %s' % (name, short(keep), short(p1)))
    s1 = _snap(r1)
    after = canon(p1)
    scribble(r1)
    if bound and fn.__name__ not in OWN and not type(r1).__module__.startswith('blmath') and not same(after[1][0], canon(p1[0]), 0):
        raise PurityViolation('changing the result of %s in place changed its object %s' % (name, short(keep[0])))
    if (name if name != 'getattr' else 'getattr %s' % args[1]) not in VIEWS and not same(after[1][1:], canon(p1)[1][1:], 0):
        raise PurityViolation('changing the result of %s in place changed its arguments %s' % (name, short(keep)))
    p2 = copy.deepcopy(keep)
    r2, state2 = _watched(name, run, p2, h + 1)
    if state1 == state2:
        raise PurityViolation('%s sets the global random state, for arguments %s' % (name, short(keep)))
    if not same(s1, _snap(r2), REL):
        raise PurityViolation('%s gave a different result when called again with equal arguments %s: %s' % (name, short(keep), short(r2 if not isinstance(r2, Raised) else r2.e)))
    if ctx.always or (h >> 12) % 4 == 0:
        _one_object(name, run, keep)
    if ctx.server is not None and (ctx.always or (h >> 8) % 8 == 0):
        s3 = ctx.server.ask((fn if not bound else fn.__name__, bound, keep))
        if s3 is not None:
            ctx.fresh += 1
            if not same(s1, s3[0], REL):
                ctx.always = True
                raise PurityViolation('%s gave a different result than in a process where nothing had been called before, for arguments %s' % (name, short(keep)))
    # a call from an earlier case must still give what it gave then
    ctx.rec_count += 1
    if ctx.records:
        k_run, k_keep, k_s, k_name = ctx.records[ctx.rec_count * 7 % len(ctx.records)]
        rk = k_run(copy.deepcopy(k_keep))
        if not same(k_s, _snap(rk), REL):
            raise PurityViolation('%s gave a different result after other calls, for arguments %s: %s' % (k_name, short(k_keep), short(rk if not isinstance(rk, Raised) else rk.e)))
    if len(ctx.records) < 64:
        ctx.records.append((run, keep, s1, name))
    elif ctx.rec_count % 5 == 0:
        ctx.records[ctx.rec_count // 5 % 64] = (run, keep, s1, name)
    if isinstance(r2, Raised):
        raise r2.e
    return r2


# integer types, and up to what size numbers are given in them
INTS = {'i8': 2 ** 17, 'i4': 2 ** 11, 'i2': 52, 'i1': 3, 'I8': 2 ** 12, 'I4': 100}


def A(x, v='c', dtype=np.float64):
    """An array (or list) holding x, in the given memory layout, or with integers if all its numbers are whole."""
    a = np.array(x, dtype=dtype)
    if v in INTS:
        lim = INTS[v]
        if a.dtype == np.float64 and np.all(a == np.round(a)) and np.all(np.abs(a) <= lim):
            a = a.astype(v.lower())
        return a
    if v == 'f' and a.ndim:
        return np.asfortranarray(a)
    if v == 's' and a.ndim:
        big = np.full(tuple(2 * s + 1 for s in a.shape), 99, dtype=a.dtype)
        view = big[tuple(slice(1, 2 * s + 1, 2) for s in a.shape)]
        view[...] = a
        return view
    if v == 'r' and a.ndim:
        return a[::-1].copy()[::-1]
    if v == 'ro':
        a.flags.writeable = False
    return a
