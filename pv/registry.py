"""Verification units: harnesses which state the contract of real functions."""
UNITS = {}


class Unit:
    def __init__(self, prop, name, fn, kw):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.id = '{}.{}'.format(prop, name)
        self.about = kw.pop('about', '')
        self.bounded = kw.pop('bounded', None)      # reason: decided by bounded search only
        self.prove = kw.pop('prove', True)
        self.search = kw.pop('search', True)
        self.budget = kw.pop('budget', 200)         # seconds of the proof
        self.thorough = kw.pop('thorough', False)   # only in the thorough tier
        self.contracts = kw.pop('contracts', [])    # callees represented by their contracts
        self.weight = kw.pop('weight', 1)
        self.runs = kw.pop('runs', None)
        self.also = kw.pop('also', [])
        assert not kw, kw


def unit(prop, **kw):
    def deco(fn):
        u = Unit(prop, fn.__name__, fn, dict(kw))
        assert u.id not in UNITS, u.id
        UNITS[u.id] = u
        return fn
    return deco
