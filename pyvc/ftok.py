"""Maps by the finite map behind their bucket vector: the accessors of _pmap.py that touch the table are used by their contracts (proved in c_pmap.py)."""
import rt, core, z3
from rt import *
from amap import *

class FTok:
    """bucket vector of a map with the associations fm"""
    def __init__(self, fm): self.fm = fm
    def vsetattr(self, a, v): frame_violation('a bucket vector')
    def evolver(self): return FTokEv(self)
    def vlen(self): raise Unsupported('number of buckets')
    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of tables')
    __hash__ = None
class FTokEv:
    def __init__(self, t):
        self.orig, self.fm, self.dirty = t, t.fm, False
    def vsetattr(self, a, v): raise Unsupported('attribute of a table evolver')
    def is_dirty(self): return self.dirty
    def vlen(self): raise Unsupported('number of buckets')
    def persistent(self):
        if truth(self.dirty):
            cur().mutlog.append(self)
            self.orig, self.dirty = FTok(self.fm), False
        return self.orig

def install(env):
    pm = env.pm = env.get('_pmap')
    P = '_pmap:PMap.'
    def tab(b):
        if not isinstance(b, (FTok, FTokEv)):
            raise Unsupported('table')
        return b
    def getitem(f, b, key): return ADict(tab(b).fm)[key]
    def contains(f, b, key): return ADict(tab(b).fm).vcontains(key)
    def iteritems(f, self): return VIter(tab(self._buckets).fm.enum)
    def set(f, self, key, val):
        c = cur()
        e = tab(self._buckets_evolver)
        q = cls(key)
        regc(q)
        c.mutlog.append(self)
        c.mutlog.append(e)
        if e.dirty is not True:       # an assignment that changes nothing may leave the evolver as it is
            b = c.bool('dirty')
            c.assume_raw(z3.Or(b, z3.And(e.fm.has(q), e.fm.val(q) == e.fm.unwrap(val))))
            e.dirty = mkbool(z3.Or(tz(e.dirty) if not isinstance(e.dirty, bool) else z3.BoolVal(e.dirty), b))
        e.fm = e.fm.set(key, val)
        self._size = e.fm.n
        return self
    def remove(f, self, key):
        e = tab(self._buckets_evolver)
        regc(cls(key))
        if not mkbool(e.fm.has(cls(key))):
            raise HRaised(KeyError(key))
        cur().mutlog.append(self)
        cur().mutlog.append(e)
        e.fm, e.dirty = e.fm.remove(key), True
        self._size = e.fm.n
        return self
    ic = env.H.intercepts
    ic[P + '_getitem'], ic[P + '_contains'], ic[P + 'iteritems'], ic[P + '_Evolver.set'], ic[P + '_Evolver.remove'] = getitem, contains, iteritems, set, remove
    def mk(f, initial=None, pre_size=0):
        return newmap(env, apmap(initial, pre_size).fm)
    ic['_pmap:pmap'] = mk

def newmap(env, fm, cls=None):
    m = object.__new__(cls or env.pm.PMap)
    sa = object.__setattr__
    sa(m, '_size', fm.n), sa(m, '_buckets', FTok(fm)), sa(m, '_cached_hash', None)
    return m
