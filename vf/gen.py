"""Strategies. Every random choice is a Hypothesis draw, and every case is plain JSON data.

Arrays of numbers are drawn as one byte string and decoded on a grid (small integers, quarters, or
arbitrary-looking decimals), which is fast, shrinks well, and makes coincidences such as repeated points, parallel
edges and right angles frequent. Sizes and values are sometimes taken from the literals which occur in the source
files of the property (a dictionary, as fuzzers use), so that inputs near a threshold in the code are reached.
"""
import ast
import os

import numpy as np
from hypothesis import strategies as st

from .env import REPO


class Dictionary(object):
    """The numeric literals of some source files of the repository."""

    def __init__(self, files):
        ints, floats = set(), set()
        for f in files:
            try:
                tree = ast.parse(open(os.path.join(REPO, f)).read())
            except (OSError, SyntaxError, UnicodeDecodeError):
                continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                    v = node.value
                    if v != v or abs(v) > 1e7:
                        continue
                    if isinstance(v, int) or float(v).is_integer():
                        ints.add(int(v))
                    floats.add(float(v))
        self.sizes = sorted({i + d for i in ints for d in (-1, 0, 1) if 3 <= i + d <= 260})
        self.big = sorted({i + d for i in ints for d in (0, 1) if 260 < i + d <= 12000})
        self.values = sorted(f for f in floats if abs(f) >= 1e-6 and f not in (0.0, 1.0, 2.0, 3.0))


_decode_modes = ['int', 'mix', 'gen', 'half', 'wide']


def decode(buf, mode):
    u = np.frombuffer(buf, dtype='<u2').astype(np.int64)
    zig = lambda t: np.where(t % 2 == 1, (t + 1) // 2, -(t // 2)).astype(np.float64)
    if mode == 'int':
        return zig(u % 11)
    if mode == 'half':
        return zig(u % 65) / 4.0
    if mode == 'wide':
        return zig(u % 4001)
    gen = ((u * 40503) & 0xffff).astype(np.uint16).view(np.int16).astype(np.float64) / 3271.3
    if mode == 'gen':
        return gen
    out = np.where(u < 0x6000, zig(u % 11), np.where(u < 0x9000, zig(u % 65) / 4.0, gen))
    return out


modes = st.sampled_from(_decode_modes)


def noise(draw, k):
    """k bytes: drawn, or if they are many, made from a drawn number."""
    if k <= 2048:
        return draw(st.binary(min_size=k, max_size=k))
    return np.random.RandomState(draw(st.integers(0, 2 ** 32 - 1))).bytes(k)


NEAR = [1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 3e-8, 1e-9, 1e-10]


@st.composite
def nums(draw, n, mode=None, consts=None):
    """A list of n numbers."""
    free = mode is None
    mode = mode or draw(modes)
    x = decode(noise(draw, 2 * n), mode)
    if free and n >= 2 and draw(st.integers(0, 15)) == 14:
        # some numbers almost equal others, or are almost zero
        for _ in range(draw(st.integers(1, 3))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(-1, n - 1))
            x[i] = (x[j] if j >= 0 else 0.0) + draw(st.sampled_from(NEAR)) * draw(st.sampled_from([1.0, -1.0]))
    if consts is not None and consts.values and n and draw(st.integers(0, 15)) == 15:
        for _ in range(draw(st.integers(1, 2))):
            x[draw(st.integers(0, n - 1))] = draw(st.sampled_from(consts.values)) * draw(st.sampled_from([1.0, -1.0]))
    return [float(v) + 0.0 for v in x]


def _shape(flat, d):
    return [flat[i:i + d] for i in range(0, len(flat), d)]


SCALES = [1.0, 1.0, 1.0, 1.0, 0.5, 1e-2, 1e2, 1e3, 0.37, 1e-3, 2.54e4, 1e6]


def scale(scales=SCALES):
    return st.sampled_from(scales)


# sizes beyond which implementations may change their ways
MANY = [257, 260, 300, 511, 513, 1000, 1001, 1024, 1025, 2000, 2049, 4096, 4097, 5000, 8193, 10001]


@st.composite
def size(draw, lo, hi, consts=None):
    if lo > 255:
        return draw(st.sampled_from([s for s in MANY + (consts.big if consts else []) * 3 if lo <= s <= hi]))
    k = draw(st.integers(0, 99))
    if k < 62 or hi - lo <= 8:
        return draw(st.integers(lo, min(hi, lo + 7)))
    if k < 84 or hi - lo <= 40:
        return draw(st.integers(lo, min(hi, lo + 40)))
    if k < 92 and consts is not None:
        ok = [s for s in consts.sizes if lo <= s <= hi]
        if ok:
            return draw(st.sampled_from(ok))
    return draw(st.integers(lo, hi))


@st.composite
def points(draw, lo=1, hi=60, d=3, mode=None, scales=SCALES, consts=None, dups=True, n=None):
    """A list of points. Some repeat, some share coordinates; the set may be scaled and moved far from the origin."""
    if n is None:
        n = draw(size(lo, hi, consts))
    x = np.array(draw(nums(n * d, mode=mode, consts=consts))).reshape(n, d)
    k = draw(st.integers(0, 11))
    if dups and n >= 2 and k in (8, 9):
        for _ in range(draw(st.integers(1, 3))):
            x[draw(st.integers(0, n - 1))] = x[draw(st.integers(0, n - 1))]
    if dups and mode is None and n >= 2 and k == 7:
        # almost the same point
        for _ in range(draw(st.integers(1, 2))):
            i, e = draw(st.integers(0, n - 1)), draw(st.sampled_from(NEAR))
            x[i] = x[draw(st.integers(0, n - 1))] + e * decode(draw(st.binary(min_size=2 * d, max_size=2 * d)), 'int')
    if dups and mode is None and n >= 3 and k == 6:
        # almost on the line of two others: slivers
        for _ in range(draw(st.integers(1, 2))):
            i, e = draw(st.integers(0, n - 1)), draw(st.sampled_from([0.1, 0.03, 1e-2, 1e-3, 1e-4, 0.0]))
            a, b = x[(i + 1) % n].copy(), x[(i + 2) % n].copy()
            x[i] = a + draw(st.sampled_from([0.5, 0.25, 1.0, 0.0, 2.0, -1.0, 1.0 / 3, 0.999, -0.01])) * (b - a) + e * decode(draw(st.binary(min_size=2 * d, max_size=2 * d)), 'int')
    if k == 10:
        x = x + np.array(decode(draw(st.binary(min_size=2 * d, max_size=2 * d)), 'wide'))
    if k >= 6 or k == 5:
        x = x * draw(st.sampled_from(scales))
    return (x + 0.0).tolist()


_dirs = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1],
         [1, 1, 0], [0, 1, 1], [1, 0, -1], [1, 1, 1], [1, -1, 1], [1, 2, 2], [2, -3, 6], [3, 4, 0], [0, -3, 4]]


@st.composite
def direction(draw, scales=(1.0, 1.0, 1.0, 0.01, 100.0, 0.37, 1e4), consts=None):
    """A vector which is not zero: axes and diagonals often, any direction otherwise, of any length."""
    k = draw(st.integers(0, 5))
    if k <= 2:
        v = [float(c) for c in draw(st.sampled_from(_dirs))]
    elif k == 3:
        # near an axis
        v = [float(c) for c in draw(st.sampled_from(_dirs[:6]))]
        e = draw(nums(3, mode='int'))
        s = draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-3]))
        v = [a + s * b for a, b in zip(v, e)]
    else:
        v = draw(nums(3, consts=consts))
    if not any(abs(c) > 1e-3 for c in v):
        v = [v[0] + 1.0, v[1], v[2]]
    s = draw(st.sampled_from(scales))
    return [c * s for c in v]


@st.composite
def quaternion(draw):
    """Any rotation: the cube's rotations, tiny ones, half turns, and generic ones."""
    k = draw(st.integers(0, 5))
    if k <= 1:
        q = draw(nums(4, mode='int'))
    elif k == 2:
        q = [1.0] + [1e-4 * c for c in draw(nums(3, mode='int'))]
    elif k == 3:
        q = [0.0] + draw(nums(3))
    else:
        q = draw(nums(4))
    if sum(c * c for c in q) < 1e-6:
        q = [1.0, 0.0, 0.0, 0.0]
    return q


def rot(q):
    w, x, y, z = q
    n = w * w + x * x + y * y + z * z
    return np.array([
        [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]) / n


layout = st.sampled_from(['c', 'c', 'c', 'c', 'f', 's', 'r', 'ro', 'i8', 'i4', 'i2', 'i1'])
# for calculations with products of up to four coordinates
layout4 = st.sampled_from(['c', 'c', 'c', 'c', 'f', 's', 'r', 'ro', 'I8', 'I4'])


@st.composite
def record(draw, **fields):
    """A dict of drawn fields; like st.fixed_dictionaries, in a fixed order."""
    return {k: draw(v) for k, v in fields.items()}


def rec(**fields):
    return st.fixed_dictionaries(fields)
