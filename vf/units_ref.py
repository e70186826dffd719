"""The units and their physical definitions, written down independently of the code: SI sizes, classes and names."""
import math

POUND = 0.45359237
# class -> list of (names, size in the base unit, relative tolerance)
EXACT = 1e-12
ROUNDED = 2e-6      # the code uses six digits for pounds, stones and the year
TABLE = {
    'length': [
        (['m', 'meter', 'meters'], 1.0, EXACT),
        (['mm', 'millimeter', 'millimeters'], 1e-3, EXACT),
        (['cm', 'centimeter', 'centimeters'], 1e-2, EXACT),
        (['in', 'inch', 'inches'], 0.0254, EXACT),
        (['ft', 'foot', 'feet'], 0.3048, EXACT),
        (['fathoms'], 1.8288, EXACT),
        (['cubits'], 0.4572, EXACT),
    ],
    'weight': [
        (['kg', 'kilograms'], 1.0, EXACT),
        (['g', 'grams'], 1e-3, EXACT),
        (['lbs', 'pounds', 'lb'], POUND, ROUNDED),
        (['stone'], 14 * POUND, ROUNDED),
    ],
    'angle': [
        (['deg', 'degrees'], 1.0, EXACT),
        (['rad', 'radians'], 180 / math.pi, EXACT),
    ],
    'time': [
        (['sec', 'second', 'seconds'], 1.0, EXACT),
        (['min', 'minute', 'minutes'], 60.0, EXACT),
        (['hr', 'hour', 'hours'], 3600.0, EXACT),
        (['day', 'days'], 86400.0, EXACT),
        (['yr', 'year', 'years'], 365.2422 * 86400.0, ROUNDED),
    ],
    'time_rate': [(['hours_per_week'], 1.0, EXACT)],
}
SIZE, CLASS, TOL, SAME = {}, {}, {}, {}
for _cls, _rows in TABLE.items():
    for _names, _size, _tol in _rows:
        for _n in _names:
            SIZE[_n], CLASS[_n], TOL[_n], SAME[_n] = _size, _cls, _tol, _names
ALL = sorted(SIZE)
CLASSES = sorted(TABLE)
BY_CLASS = {c: sorted(n for n in ALL if CLASS[n] == c) for c in CLASSES}
DEFAULTS = {
    'metric': {'length': 'cm', 'weight': 'kg', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
    'united_states': {'length': 'in', 'weight': 'lb', 'angle': 'deg', 'time': 'yr', 'time_rate': 'hours_per_week'},
}


def factor(a, b):
    return SIZE[a] / SIZE[b]


def tol(a, b):
    """Relative tolerance of the factor."""
    if SAME[a] is SAME[b]:
        return EXACT
    return TOL[a] + TOL[b]
