"""Shared helpers of the bounded stand-in / falsifier (runs under /opt/venv/bin/python, on the real code)."""
import random, sys, operator, collections

class Violation(Exception):
    pass

def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)

class K:
    """Key with a chosen hash; equality by name."""
    __slots__ = ('name', 'h', '__weakref__')
    def __init__(self, name, h):
        self.name, self.h = name, h
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return isinstance(o, K) and o.name == self.name
    def __repr__(self):
        return 'K(%r,%r)' % (self.name, self.h)

class Obj:
    """Element compared by identity."""
    __slots__ = ('n', '__weakref__')
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return 'Obj(%r)' % (self.n,)

def exc_name(f):
    """Run f; (True, value) or (False, exception class)."""
    try:
        return True, f()
    except Violation:
        raise
    except RecursionError:
        raise
    except Exception as e:
        return False, type(e)

def same_elems(got, want):
    got = list(got)
    return len(got) == len(want) and all(g is w or (type(g) is type(want[i]) and g == w)
                                         for i, (g, w) in enumerate(zip(got, want)))

def short(x, n=200):
    try:
        s = repr(x)
    except Exception as e:
        s = '<unrepr %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)

BOUNDARY = [0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 991, 992, 993, 1023, 1024, 1025, 1026, 1055, 1056, 1057, 1058, 1088, 1089, 2080, 2081]
BIG = [32767, 32768, 32769, 32799, 32800, 32801, 32832, 32833, 33792, 33824, 33825, 65600]
HUGE = [1048576, 1048608, 1048609, 1048640, 1048641]

FAMILIES = {}    # name -> function(params) ; raises Violation
PLANS = {}       # property -> list of generators yielding (family, params)

def family(f):
    FAMILIES[f.__name__] = f
    return f

def plan(*props):
    def deco(g):
        for p in props:
            PLANS.setdefault(p, []).append(g)
        return g
    return deco
