"""Maps with concrete keys (field names): the bucket vector is a token that stands for a well-formed table of the given associations;
the accessors of _pmap.py that touch the table are used by their contracts (proved in c_pmap.py)."""
import rt, core
from rt import *

class DTok:
    """bucket vector of a map with the associations d"""
    def __init__(self, d):
        self.d = dict(d)
    def vsetattr(self, a, v): frame_violation('a bucket vector')
    def evolver(self): return DTokEv(self)
    def vlen(self): raise Unsupported('number of buckets')
    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported('comparison of tables')
    __hash__ = None
class DTokEv:
    def __init__(self, t):
        self.orig, self.d, self.dirty = t, dict(t.d), False
    def vsetattr(self, a, v): raise Unsupported('attribute of a table evolver')
    def is_dirty(self): return self.dirty
    def vlen(self): raise Unsupported('number of buckets')
    def persistent(self):
        if self.dirty:
            cur().mutlog.append(self)
            self.orig, self.dirty = DTok(self.d), False
        return self.orig

def install(env):
    pm = env.pm = env.get('_pmap')
    P = '_pmap:PMap.'
    def tab(b):
        if not isinstance(b, (DTok, DTokEv)):
            raise Unsupported('table')
        return b
    def getitem(f, b, key):
        try:
            return tab(b).d[ckey(key)]
        except KeyError as e:
            raise HRaised(e)
    def contains(f, b, key):
        return ckey(key) in tab(b).d
    def iteritems(f, self):
        return VIter(Lit([(k, v) for k, v in tab(self._buckets).d.items()]))
    def set(f, self, key, val):
        e = tab(self._buckets_evolver)
        if isinstance(key, (VList, VDict, VSet)):
            raise HRaised(TypeError('unhashable'))
        ckey(key)
        if key in e.d and truth(env.H.is_(e.d[key], val)) and cur().choose(2):
            return self
        cur().mutlog.append(self)
        if key not in e.d:
            self._size = self._size + 1
        e.d[key] = val
        e.dirty = True
        return self
    def remove(f, self, key):
        e = tab(self._buckets_evolver)
        if ckey(key) not in e.d:
            raise HRaised(KeyError(key))
        cur().mutlog.append(self)
        del e.d[key]
        e.dirty = True
        self._size = self._size - 1
        return self
    ic = env.H.intercepts
    ic[P + '_getitem'], ic[P + '_contains'], ic[P + 'iteritems'], ic[P + '_Evolver.set'], ic[P + '_Evolver.remove'] = getitem, contains, iteritems, set, remove
    def mk(initial=(), pre_size=0):
        d = initial.d if isinstance(initial, VDict) else dict(initial)
        return newmap(env, d)
    env.mkpmap = mk
    ic['_pmap:pmap'] = lambda f, *a, **k: mk(*a, **k)

def newmap(env, d, cls=None):
    m = object.__new__(cls or env.pm.PMap)
    sa = object.__setattr__
    sa(m, '_size', len(d)), sa(m, '_buckets', DTok(d)), sa(m, '_cached_hash', None)
    return m
