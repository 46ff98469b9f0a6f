"""Base class of function contracts and the registry of units (proof goals)."""
from . import prop

UNITS = {}          # property id -> list of Unit


class Unit:
    def __init__(self, pid, name, f, targets, kw):
        self.pid, self.name, self.f, self.targets, self.kw = pid, name, f, targets, kw
        self.key = '%s/%s' % (pid, name)


def unit(pid, name, targets=(), **kw):
    """kw: concrete=False (no concrete reading), symbolic=False (bounded stand-in only), trials, budget,
       bounded='text' (label of a bounded unit), timeout"""
    def deco(f):
        UNITS.setdefault(pid, []).append(Unit(pid, name, f, list(targets), kw))
        return f
    return deco


class Contract:
    """requires / ensures of one function of the repository.
       pre(H, a)        list of (name, Prop)   over the bound arguments a
       post(H, a, r)    list of (name, Prop)   over the result r
       shape(H, a)      a fresh arbitrary result (may fork over shapes)"""
    qual = None

    @classmethod
    def pre(cls, H, a):
        return []

    @classmethod
    def post(cls, H, a, r):
        return []

    @classmethod
    def shape(cls, H, a):
        raise NotImplementedError

    @classmethod
    def check_pre(cls, H, a):
        for n, p in cls.pre(H, a):
            H.check('call of %s: requires %s' % (cls.qual, n), p, 'precondition')

    @classmethod
    def result(cls, H, a):
        r = cls.shape(H, a)
        for n, p in cls.post(H, a, r):
            H.assume(p)
        return r

    @classmethod
    def verify(cls, H, a, r):
        for n, p in cls.post(H, a, r):
            H.check('%s ensures %s' % (cls.qual, n), p)
