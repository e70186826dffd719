"""The table of sub-checks, filled by the modules in props/."""
import importlib
import pkgutil

SUBS = []


class Sub(object):
    def __init__(self, prop, name, strategy, fn, n, thorough, crashy, purity, shards, prepare):
        self.prop, self.name, self.strategy, self.fn, self.n = prop, name, strategy, fn, n
        self.thorough = thorough
        self.crashy = crashy
        self.purity = purity
        self.shards = shards
        self.prepare = prepare

    @property
    def id(self):
        return '%s.%s' % (self.prop, self.name)


def sub(prop, strategy, n, name=None, thorough=40, crashy=False, purity=True, shards=None, prepare=None):
    """Register an oracle. n: cases in the quick tier; thorough: the factor for the thorough tier."""
    def deco(fn):
        SUBS.append(Sub(prop, name or fn.__name__, strategy, fn, n, thorough, crashy, purity, shards, prepare))
        return fn
    return deco


def load(prop=None):
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        if prop is None or m.name == prop.lower():
            importlib.import_module('vf.props.' + m.name)
    return SUBS
