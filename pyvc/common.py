import core, rt, z3
from core import *
from rt import *

HARNESSES = []     # (property set, name, function, module)
def harness(prop, name, also=(), **kw):
    def deco(f):
        HARNESSES.append(dict(props=[prop] + list(also), name=name, f=f, module=f.__module__, **kw))
        return f
    return deco

TIER = 'quick'
def shifts():
    """depths of vector tries considered: up to 2^35 elements (quick), 2^45 (thorough)"""
    return [5, 10, 15, 20, 25, 30] + ([35, 40] if TIER == 'thorough' else [])

class Env:
    pass

def expect_ok(f, name):
    """Run f; it must not raise."""
    c = cur()
    try:
        r = f()
    except Exception as e:
        classify(e)
        c.prove(False, name, 'raised %s: %s' % (type(e).__name__, e))
        raise Stop()
    c.prove(True, name)
    return r

def classify(e):
    if not getattr(e, '_vc_raised', False):
        import traceback
        raise Unsupported('native %s in symbolic execution: %s @ %s' % (type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__, limit=-2)).replace('\n', ' ')[-300:]))

def expect_raise(f, exc, name):
    c = cur()
    try:
        r = f()
    except Exception as e:
        classify(e)
        c.prove(isinstance(e, exc), name, 'raised %s' % type(e).__name__)
        return e
    c.prove(False, name, 'returned %r' % (r,))
    raise Stop()

def prove_bool(r, want, name):
    c = cur()
    if isinstance(r, (bool, SymBool)):
        a = tz(r) if isinstance(r, SymBool) else z3.BoolVal(r)
        b = tz(want) if isinstance(want, SymBool) else z3.BoolVal(want)
        c.prove(a == b, name)
    else:
        c.prove(False, name, 'result is %r' % (r,))

def sub(env, K, w=None):
    """K itself or a subclass of it"""
    if (cur().choose(2) if w is None else w) == 0:
        return K
    t = env.__dict__.setdefault('subclasses', {})
    if K not in t:
        t[K] = type(K)('Sub' + K.__name__, (K,), dict(__slots__=(), __module__='pyrsistent.user'))
    return t[K]
