"""Memory model of pvectorcmodule.c for the engine and the assumed contracts of the C API.
Nodes that existed before the call are (tree, level, number) triples as in vtree; nodes allocated by the call are objects of
their own.  Reference counts are ghost deltas: every change of a count is recorded in a ledger, and balance() compares the ledger
with the references actually held by the structures that exist afterwards, for an arbitrary node and an arbitrary element."""
import core, rt, z3
from rt import *
from common import *
from vtree import *
import vtree

class Unset:
    def __repr__(self): return '<uninitialised>'
UNSET = Unset()
DIRTY = 0x80000000

class RC:
    """value of a reference count field: mark in the top bit, number in the rest"""
    def __init__(self, dirty, cnt):
        self.dirty, self.cnt = dirty, cnt
    def __add__(self, k): return RC(self.dirty, z3.simplify(self.cnt + k))
    def __sub__(self, k): return RC(self.dirty, z3.simplify(self.cnt - k))
    def __and__(self, m):
        if m == DIRTY:
            return Bit(self.dirty)
        if m == DIRTY - 1:
            return RC(z3.BoolVal(False), self.cnt)
        raise Unsupported('mask of a reference count')
    def __or__(self, m):
        if m == DIRTY:
            return RC(z3.BoolVal(True), self.cnt)
        raise Unsupported('mask of a reference count')
    def eqz(self, k): return mkbool(z3.And(z3.Not(self.dirty), self.cnt == k))
class Bit:
    def __init__(self, t): self.t = t
    def vtruth(self): return bool(mkbool(self.t))
    def eqz(self, k): return mkbool(z3.Not(self.t)) if k == 0 else False

class Arr:
    """node->items"""
    def __init__(self, node): self.node = node

class CN(VNode):
    """a node of an existing vector or evolver"""
    @property
    def items(self): return Arr(self)
    @property
    def refCount(self): return rc_of(self)
    def vsetattr(self, a, v):
        if a != 'refCount':
            raise Unsupported('node.' + a)
        rc_set(self, v)

class TN(VList):
    """the tail node of an existing vector (own: marked as changed by the evolver)"""
    def __init__(self, s, label, own=None):
        VList.__init__(self, s)
        c = cur()
        c.uidc = self.uid = getattr(c, 'uidc', 0) + 1
        self.frozen, self.own = label, own
    @property
    def items(self): return Arr(self)
    @property
    def refCount(self): return rc_of(self)
    def vsetattr(self, a, v):
        if a != 'refCount':
            raise Unsupported('node.' + a)
        rc_set(self, v)
    def is_owned(self): return self.own if self.own is not None else z3.BoolVal(False)
    def vis(self, o): return o is self

class NN(VList):
    """a node allocated during the call; its memory is arbitrary until it is written"""
    def __init__(self):
        VList.__init__(self, EMPTY)
        c = cur()
        c.uidc = self.uid = getattr(c, 'uidc', 0) + 1
        self.junk = True
        self.rc = None
        self.freed = False
    @property
    def items(self): return Arr(self)
    @property
    def refCount(self):
        if self.rc is None:
            bad('read of uninitialised memory (refCount)')
        return self.rc
    def vsetattr(self, a, v):
        if a != 'refCount':
            raise Unsupported('node.' + a)
        self.live()
        self.rc = v if isinstance(v, RC) else RC(z3.BoolVal(False), iz(v))
    def live(self):
        if self.freed:
            bad('use of a freed node')
    def vis(self, o): return o is self
    def is_owned(self): return z3.BoolVal(True)

def led():
    c = cur()
    if not hasattr(c, 'led'):
        c.led = []
        c.newnodes, c.newobjs, c.rcf, c.dirtylog, c.err, c.prov = [], [], {}, [], None, {}
        c.freed_old = []
    return c.led

def bad(what):
    cur().prove(False, 'memory: no NULL, freed or uninitialised memory is used', what)
    raise Stop()

def same_node(a, b):
    """z3 Bool"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, CN) and isinstance(b, CN) and a.tree.uid == b.tree.uid and a.level == b.level:
        return z3.simplify(iz(a.m) == iz(b.m))
    if isinstance(a, (NN, TN)) and isinstance(b, (NN, TN)):      # objects of the same path prefix have the same number
        return z3.BoolVal(a.uid == b.uid)
    return z3.BoolVal(False)

def rc_base(n):
    c = cur()
    led()
    if isinstance(n, CN):
        k = ('rc', n.tree.uid, n.level)
        if k not in c.rcf:
            c.rcf[k] = c.fun('rc%d' % n.level, z3.IntSort(), z3.IntSort())
        t = c.rcf[k](iz(n.m))
    else:
        k = ('rc', n.uid)
        if k not in c.rcf:
            c.rcf[k] = c.int('rc').t
            c.keep.append(n)
        t = c.rcf[k]
    c.assume_raw(z3.And(t >= 1, t < DIRTY - (1 << 16)))
    c.assume_raw(z3.Implies(n.is_owned(), t == 1))       # a node marked by an evolver is referenced by it alone
    return t
def delta(n):
    """change of the count of node n recorded so far"""
    t = z3.IntVal(0)
    for e in led():
        t = t + effect(e, n)
    return z3.simplify(t)
def dirty_of(n):
    t = n.is_owned()
    for (m, v) in getattr(cur(), 'dirtylog', []):
        t = z3.If(same_node(m, n), z3.BoolVal(v), t)
    return z3.simplify(t)
def rc_of(n):
    return RC(dirty_of(n), rc_base(n) + delta(n))
def rc_set(n, v):
    c = cur()
    old = rc_of(n)
    if not isinstance(v, RC):
        v = RC(z3.BoolVal(False), iz(v))
    d = z3.simplify(v.cnt - old.cnt)
    if not z3.is_int_value(d) and c.implied(d == 0):
        d = z3.IntVal(0)
    if not z3.is_int_value(d):
        led().append(('set', n, v.cnt))
    elif d.as_long():
        led().append(('one', n, d.as_long()))
    nd = z3.simplify(v.dirty)
    if not nd.eq(old.dirty):
        if z3.is_true(nd) or z3.is_false(nd):
            c.dirtylog.append((n, z3.is_true(nd)))
        else:
            raise Unsupported('mark of a node')

# ------------------------------------------------------------------ occurrences of a node or an element in a sequence of items
def occ(s, x):
    """z3 Int: how many items of s are x (a node, an object, or a z3 term of the sort of elements)"""
    isn = isinstance(x, VList)
    if isinstance(s, Lit):
        return z3.Sum([z3.IntVal(0)] + [one(v, x) for v in s.xs])
    if isinstance(s, Concat):
        return occ(s.a, x) + occ(s.b, x)
    if isinstance(s, Upd):
        return occ(s.a, x) - one(s.a.get(s.i), x) + one(s.v, x)
    lo, n, b = z3.IntVal(0), iz(s.n), s
    while isinstance(b, Slice):
        lo, b = lo + iz(b.lo), b.a
    if b is not s and isinstance(b, (Lit, Concat, Upd)):
        raise Unsupported('occurrences in a slice')
    if hasattr(b, 'node'):
        nd = b.node
        if not isinstance(x, CN) or nd.tree.uid != x.tree.uid or x.level != nd.level - 5:
            return z3.IntVal(0)
        if any(w[0] == nd.level for w in nd.tree.writes):
            raise Unsupported('occurrences in a changed node')
        base = 32 * iz(nd.m)
        return z3.If(z3.And(iz(x.m) >= base + lo, iz(x.m) < base + lo + n), z3.IntVal(1), z3.IntVal(0))
    if isn or not z3.is_expr(x):
        if getattr(b, 'isv', False):
            return z3.IntVal(0)
        raise Unsupported('occurrences of a node')
    c = cur()
    while isinstance(b, Upd):       # never reached for slices of updates (above); updates of a base sequence are split off
        raise Unsupported('occurrences')
    k = ('cnt', str(b.term(z3.Int('p!'))), str(x))
    led()
    if k not in c.rcf:
        c.rcf[k] = c.fun('cnt', z3.IntSort(), z3.IntSort())
        c.keep.append(b)
    f = c.rcf[k]
    return f(z3.simplify(lo + n)) - f(z3.simplify(lo))
def one(v, x):
    if v is None:
        return z3.IntVal(0)
    if isinstance(x, VList):
        return z3.If(same_node(v, x), z3.IntVal(1), z3.IntVal(0)) if isinstance(v, VList) else z3.IntVal(0)
    if z3.is_expr(x):
        t = vterm(v)
        return z3.If(t == x, z3.IntVal(1), z3.IntVal(0)) if t is not None else z3.IntVal(0)
    return z3.IntVal(1 if v is x else 0)
def effect(e, x):
    k, t, d = e
    if k == 'set':
        if z3.is_false(same_node(t, x)):
            return z3.IntVal(0)
        raise Unsupported('reference count set to a number')
    return (d * one(t, x)) if k == 'one' else (d * occ(t, x))

# ------------------------------------------------------------------ operations of the translated code
class COps:
    UNSET = UNSET
    once = (0,)
    class cell:
        def __init__(self, *v):
            self.x = v[0] if v else UNSET
        @property
        def v(self):
            if self.x is UNSET:
                bad('read of an uninitialised variable')
            return self.x
    @staticmethod
    def put(c, v):
        c.x = v
        return v
    @staticmethod
    def get(c):
        return c.v
    @staticmethod
    def comma(a, b): return b
    @staticmethod
    def deref(p):
        if p is None:
            bad('NULL pointer dereferenced')
        if p is UNSET:
            bad('uninitialised pointer dereferenced')
        if isinstance(p, NN):
            p.live()
        if isinstance(p, (CVec, CEv)) and p.freed:
            bad('use of a freed object')
        if isinstance(p, (SymVal, SymInt, int, VSlice)):
            return PyObj
        return p
    @staticmethod
    def at(a, i):
        if isinstance(a, CacheNodes):
            return a.get(i)
        if not isinstance(a, Arr):
            raise Unsupported('subscript of ' + type(a).__name__)
        n = a.node
        c = cur()
        c.prove(z3.And(iz(i) >= 0, iz(i) < 32), 'memory: index inside the node')
        if isinstance(n, NN):
            n.live()
            if n.junk:
                bad('read of uninitialised memory (items)')
        s = n.s
        if mkbool(iz(i) < iz(s.n)):
            v = s.get(i)
            led()
            c.prov[id(v)] = (v, s, i)
            return v
        return None
    @staticmethod
    def store(a, i, v):
        if isinstance(a, CacheNodes):
            return a.set(i, v)
        if not isinstance(a, Arr):
            raise Unsupported('store into ' + type(a).__name__)
        n = a.node
        c = cur()
        c.prove(z3.And(iz(i) >= 0, iz(i) < 32), 'memory: index inside the node')
        c.mutlog.append(n)
        if v is UNSET:
            bad('uninitialised pointer stored')
        if isinstance(n, NN):
            n.live()
            if n.junk:
                raise Unsupported('store into uninitialised memory')
            if v is None:
                raise Unsupported('NULL stored')
            if mkbool(iz(i) == iz(n.s.n)):
                n.s = n.s + Lit([v])
            elif mkbool(iz(i) < iz(n.s.n)):
                n.s = Upd(n.s, i, v)
            else:
                raise Unsupported('hole in a node')
            return
        if isinstance(n, TN) and getattr(n, 'excl', False):       # tail of a vector that is still being built
            if v is None:
                raise Unsupported('NULL stored')
            if mkbool(iz(i) == iz(n.s.n)):
                n.s = n.s + Lit([v])
            elif mkbool(iz(i) < iz(n.s.n)):
                n.s = Upd(n.s, i, v)
            else:
                raise Unsupported('hole in a node')
            return
        if isinstance(n, TN):
            c.prove(dirty_of(n), 'frame: only nodes created by this evolver are written (tail)')
            if not mkbool(iz(i) < iz(n.s.n)):
                raise Unsupported('evolver tail grows')
            n.s = Upd(n.s, i, v)
            return
        n[i] = v
    @staticmethod
    def nonnull(p):
        if p is UNSET:
            bad('uninitialised pointer used')
        return p is not None
    @staticmethod
    def lnot(x):
        if isinstance(x, SymInt):
            return mkbool(x.t == 0)
        return H_not(x)
    @staticmethod
    def same(a, b):
        if a is UNSET or b is UNSET:
            bad('uninitialised pointer compared')
        if a is None or b is None:
            return a is b
        return THE.H.is_(a, b)
    @staticmethod
    def differ(a, b):
        return H_not(COps.same(a, b))
    @staticmethod
    def eq(a, b):
        for x, y in ((a, b), (b, a)):
            if hasattr(x, 'eqz'):
                return x.eqz(y)
        if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            x, k = (a, b) if isinstance(a, (bool, SymBool)) else (b, a)
            if k in (0, 1) and not isinstance(k, SymBool):
                return x if k else H_not(x)
        return a == b
    @staticmethod
    def ne(a, b): return H_not(COps.eq(a, b))
    @staticmethod
    def u32(x):
        if isinstance(x, (SymBool, bool)) or not isint(x):
            return x
        if isinstance(x, SymInt):
            cur().prove(z3.And(iz(x) >= 0, iz(x) < 1 << 32), 'arithmetic: the value fits an unsigned int', soft=True)
        return x
    @staticmethod
    def i32(x):
        if isinstance(x, SymInt):
            cur().prove(z3.And(iz(x) >= -(1 << 31), iz(x) < 1 << 31), 'arithmetic: the value fits an int', soft=True)
        return x
    @staticmethod
    def usub(a, b):
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            cur().prove(iz(a) >= iz(b), 'arithmetic: an unsigned subtraction does not wrap', soft=True)
        elif a < b:
            cur().prove(False, 'arithmetic: an unsigned subtraction does not wrap', soft=True)
        return a - b
    @staticmethod
    def mul(a, b):
        if isinstance(a, SymInt) and isinstance(b, SymInt):
            return Prod(a, b)
        return a * b
    @staticmethod
    def div(a, b):
        if isinstance(a, Prod):
            for x, y in ((a.a, a.b), (a.b, a.a)):
                if isinstance(b, SymInt) and x.t.eq(b.t):
                    cur().prove(b.t != 0, 'arithmetic: no division by zero')
                    return y
            raise Unsupported('division')
        if isinstance(b, int) and b > 0 and cur().implied(iz(a) >= 0):
            return a // b
        raise Unsupported('division')
    @staticmethod
    def mod(a, b):
        if isinstance(b, int) and b > 0 and (isinstance(a, int) and a >= 0 or cur().implied(iz(a) >= 0)):
            return a % b
        raise Unsupported('remainder')
    @staticmethod
    def sizeof(t):
        d = {'void *[32]': 256, 'VNode': 264, 'void *': 8, 'PyObject *': 8, 'VNode *': 8}
        if t not in d:
            raise Unsupported('sizeof ' + str(t))
        return d[t]
class Prod:
    def __init__(self, a, b): self.a, self.b = a, b

class PyObj:
    """field access on an arbitrary Python object (error messages only)"""
    class ob_type:
        tp_name = 'type'
    class tp:
        tp_name = 'type'

class CVec:
    """PVector.  cont: contents when the object is known by its contents only"""
    freed = False
    def vis(self, o): return o is self
class CEv:
    freed = False
    def vis(self, o): return o is self

class THE:
    H = None
class CacheNodes:
    """nodeCache.nodes"""
    def __init__(self):
        self.writes = []
    def get(self, i):
        cur().prove(z3.And(iz(i) >= 0, iz(i) < 1024), 'memory: index inside the node cache')
        return self.handed(i)
    def set(self, i, v):
        cur().prove(z3.And(iz(i) >= 0, iz(i) < 1024), 'memory: index inside the node cache')
        self.writes.append((i, v))

PYOBJ = ()
def is_obj(x):
    return isinstance(x, (SymVal, CVec, CEv, VList, VTuple, VIter, Single, SymInt, int, PyLong)) and not isinstance(x, (CN, TN, NN))
class Single:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
class CmpTok:
    def __init__(self, a, b, op): self.a, self.b, self.op = a, b, op
class PyLong:
    """a Python int made by the C code"""
    def __init__(self, v): self.v = v

def make_api(H):
    """assumed contracts of what pvectorcmodule.c calls"""
    THE.H = H
    api = {}
    def a(f):
        api[f.__name__] = f
        return f
    S = {n: Single(n) for n in ('_Py_TrueStruct', '_Py_FalseStruct', '_Py_NotImplementedStruct', 'PVectorType', 'PVectorEvolverType', 'PVectorIterType', 'PySlice_Type')}
    api.update(S)
    for e in ('IndexError', 'TypeError', 'ValueError', 'StopIteration', 'MemoryError'):
        api['PyExc_' + e] = getattr(builtins, e)
    api['_PyEval_SliceIndex'] = 'sliceindex'
    api['_C'] = COps
    class Cache:
        pass
    def inc(o, d):
        if o is None:
            bad('reference count of NULL')
        if o is UNSET:
            bad('reference count through an uninitialised pointer')
        o = getattr(o, 'base_iter', o)
        if isinstance(o, VList) and isinstance(o, (CN, TN, NN)):
            bad('reference count of a node taken as that of an object')
        pr = led() and None
        led().append(('one', o, d))
    @a
    def Py_INCREF(o): inc(o, 1)
    @a
    def Py_XINCREF(o):
        if o is not None:
            inc(o, 1)
    @a
    def Py_DECREF(o): inc(o, -1)
    @a
    def Py_XDECREF(o):
        if o is not None:
            inc(o, -1)
    @a
    def PyErr_Format(e, *a):
        led()
        cur().err = e
    @a
    def PyErr_SetString(e, *a):
        led()
        cur().err = e
    @a
    def PyErr_NoMemory():
        led()
        cur().err = MemoryError
    @a
    def PyErr_Occurred():
        led()
        return cur().err
    @a
    def PyErr_ExceptionMatches(e):
        led()
        return cur().err is not None and issubclass(cur().err, e)
    @a
    def PyErr_Clear():
        led()
        cur().err = None
    @a
    def memset(p, v, n):
        if not isinstance(p, NN) or v != 0 or n != 264:
            raise Unsupported('memset')
        p.live()
        p.s, p.junk, p.rc = EMPTY, False, RC(z3.BoolVal(False), z3.IntVal(0))
    @a
    def memcpy(d, s, nb):
        c = cur()
        if not isinstance(d, Arr) or not isinstance(s, Arr):
            raise Unsupported('memcpy')
        dn, sn = d.node, s.node
        if not isinstance(dn, NN):
            frame_violation('node of an existing vector')
        dn.live()
        if isinstance(sn, NN):
            sn.live()
            if sn.junk:
                bad('copy of uninitialised memory')
        c.mutlog.append(dn)
        if isinstance(nb, int):
            k = nb // 8
            c.prove(nb % 8 == 0 and 0 <= k <= 32, 'memory: copy inside the node')
        else:
            k = c.int('k')
            c.assume_raw(z3.And(8 * k.t <= iz(nb), iz(nb) < 8 * k.t + 8))
            c.prove(z3.And(iz(nb) == 8 * k.t, k.t >= 0, k.t <= 32), 'memory: copy inside the node')
        if isinstance(k, int) and k == 32:
            dn.s, dn.junk = sn.s, False
            return
        if dn.junk:
            raise Unsupported('partial copy into uninitialised memory')
        if not (isinstance(dn.s.n, int) and dn.s.n == 0):
            raise Unsupported('partial copy')
        if c.implied(iz(k) == iz(sn.s.n)):
            dn.s = sn.s
        else:
            dn.s = Slice(sn.s, 0, mkint(z3.If(iz(k) < iz(sn.s.n), iz(k), iz(sn.s.n))))
    @a
    def _PyObject_GC_New(t):
        led()
        o = CVec() if t is S['PVectorType'] else CEv() if t is S['PVectorEvolverType'] else CEv()
        o.typ = t
        cur().newobjs.append(o)
        cur().keep.append(o)
        return o
    @a
    def PyObject_GC_Track(o):
        COps.deref(o)
        cur().prove(not getattr(o, 'tracked', False), 'memory: an object is handed to the garbage collector once')
        o.tracked = True
    @a
    def PyObject_GC_UnTrack(o):
        COps.deref(o)
        o.tracked = False
    @a
    def PyObject_ClearWeakRefs(o): pass
    @a
    def PyObject_GC_Del(o):
        cur().prove(not o.freed, 'memory: an object is freed once')
        cur().prove(not getattr(o, 'tracked', False), 'memory: the garbage collector no longer knows a freed object')
        o.freed = True
    @a
    def PyThreadState_GetUnchecked(): return Single('tstate')
    api['_PyThreadState_UncheckedGet'] = api['PyThreadState_GetUnchecked']
    @a
    def _PyTrash_begin(t, o): return 0
    @a
    def _PyTrash_end(t): pass
    @a
    def _PyTrash_cond(o, f): return cur().choose(2)
    @a
    def Py_TYPE(o):
        if isinstance(o, (CVec, CEv)):
            return o.typ
        if isinstance(o, VIter):
            return IterType
        return PyObj.tp
    @a
    def Py_IS_TYPE(o, t):
        if t is S['PySlice_Type']:
            return isinstance(o, VSlice)
        return api['Py_TYPE'](o) is t
    class IterType:
        tp_name = 'iterator'
        @staticmethod
        def tp_iternext(it):
            r = it.step()
            if r is None:
                cur().err = getattr(it, 'outcome', None)
                return None
            if not isinstance(r[0], SymVal):
                raise Unsupported('iteration over structured values')
            led().append(('one', r[0], 1))
            return r[0]
    @a
    def PyObject_GetIter(x):
        led()
        if isinstance(x, CVec):
            it = VIter(THE.cont(x))
        else:
            try:
                it = VIter(seq_of(x)) if not isinstance(x, VIter) else x
            except (NotIterable, TypeError):
                cur().err = TypeError
                return None
        if x is it:
            led().append(('one', it, 1))
        else:
            cur().newobjs.append(it)
            it.outcome = getattr(x, 'outcome', None)
        return it
    # ---- lists
    @a
    def PyList_New(n):
        l = VList(EMPTY)
        l.cap = n
        led()
        cur().newobjs.append(l)
        return l
    @a
    def PyList_SET_ITEM(l, i, o):
        c = cur()
        if o is None or o is UNSET:
            bad('NULL stored in a list')
        if not c.quiet and not c.implied(iz(i) == iz(l.s.n)):
            raise Unsupported('list filled out of order')
        c.prove(iz(i) < iz(l.cap), 'memory: index inside the list')
        l.append(o)
        led().append(('one', o, -1))
    @a
    def PyList_GET_SIZE(l):
        COps.deref(l)
        return l.s.n
    api['PyList_Size'] = api['PyList_GET_SIZE']
    @a
    def PyList_GetItem(l, i):
        c = cur()
        if mkbool(z3.And(iz(i) >= 0, iz(i) < iz(l.s.n))):
            return l.s.get(i)
        c.err = IndexError
        return None
    @a
    def PyList_SetItem(l, i, v):
        """steals a reference"""
        c = cur()
        if mkbool(z3.And(iz(i) >= 0, iz(i) < iz(l.s.n))):
            l.touch()
            l.s = Upd(l.s, i, v)
            led().append(('one', v, -1))
            return 0
        c.err = IndexError
        return -1
    @a
    def PyList_Append(l, v):
        COps.deref(l)
        l.append(v)
        return 0
    api['PY_SSIZE_T_MAX'] = (1 << 63) - 1
    @a
    def PyList_SetSlice(l, i, j, v):
        COps.deref(l)
        c = cur()
        if v is None:
            n = iz(l.s.n)
            lo = mkint(z3.If(iz(i) < 0, 0, z3.If(iz(i) > n, n, iz(i))))
            hi = mkint(z3.If(iz(j) < iz(lo), iz(lo), z3.If(iz(j) > n, n, iz(j))))
            l.touch()
            if c.implied(iz(hi) == iz(lo) + 1):
                l.s = Removed(l.s, lo)
            else:
                l.s = Slice(l.s, 0, lo) + Slice(l.s, hi, mkint(n - iz(hi)))
            return 0
        if isinstance(i, int) and i > 1 << 62 and isinstance(j, int) and j > 1 << 62:
            try:
                s = seq_of(v) if not isinstance(v, CVec) else THE.cont(v)
            except (NotIterable, TypeError):
                c.err = TypeError
                return -1
            if getattr(v, 'outcome', None) is TypeError:
                c.err = TypeError
                return -1
            l.touch()
            l.s = l.s + s
            return 0
        raise Unsupported('PyList_SetSlice')
    @a
    def PyList_AsTuple(l):
        t = VTuple(l.s)
        led()
        cur().newobjs.append(t)
        return t
    @a
    def PyTuple_New(n):
        t = VTuple(EMPTY)
        t.cap = n
        cur().newobjs.append(t)
        return t
    @a
    def PyTuple_SET_ITEM(t, i, o):
        if not cur().implied(iz(i) == iz(t.s.n)):
            raise Unsupported('tuple filled out of order')
        t.s = t.s + Lit([o])
        led().append(('one', o, -1))
    @a
    def PyTuple_Size(t): return t._seq().n if isinstance(t, Coll) else len(t)
    @a
    def PyTuple_GetItem(t, i):
        c = cur()
        s = t._seq()
        if mkbool(z3.And(iz(i) >= 0, iz(i) < iz(s.n))):
            return s.get(i)
        c.err = IndexError
        return None
    # ---- objects
    @a
    def PyObject_RichCompareBool(x, y, op):
        if x is None or y is None:
            if cur().quiet:
                raise Stop()
            bad('NULL compared')
        if op != 2:
            raise Unsupported('comparison')
        if c_user_eq(x) or c_user_eq(y):
            pass
        if getattr(cur(), 'eq_raises', False) and cur().choose(2):
            cur().err = RuntimeError
            cur().eq_failed = True
            return -1
        return mkint(z3.If(Cls(vterm(x)) == Cls(vterm(y)), z3.IntVal(1), z3.IntVal(0)))
    def c_user_eq(x):
        if vterm(x) is None:
            raise Unsupported('comparison of a structured value')
    @a
    def PyObject_RichCompare(x, y, op):
        r = CmpTok(x, y, op)
        led()
        if cur().choose(2):
            cur().err = TypeError
            return None
        cur().newobjs.append(r)
        return r
    @a
    def PyObject_Hash(x):
        return ('hash', x)
    @a
    def PyObject_Repr(x):
        o = ('repr', x)
        led()
        if cur().choose(2):
            cur().err = RuntimeError
            return None
        cur().newobjs.append(o)
        return o
    @a
    def PyUnicode_FromFormat(f, *a):
        o = ('format', f) + a
        cur().newobjs.append(o)
        return o
    @a
    def PyLong_FromSsize_t(i):
        o = PyLong(i)
        led()
        cur().newobjs.append(o)
        return o
    @a
    def PyLong_AsSsize_t(o): return o.v if isinstance(o, PyLong) else o
    @a
    def PyIndex_Check(o): return isint(o) and not isinstance(o, PyLong)
    @a
    def PyNumber_AsSsize_t(o, exc):
        """integers outside the range of Py_ssize_t make it fail with exc"""
        led()
        if isinstance(o, SymInt) and o.t.get_id() in getattr(cur(), 'huge', ()):
            cur().err = exc
            return -1
        return o
    @a
    def PyArg_ParseTuple(args, fmt, *out):
        led()
        c = cur()
        fmt = fmt.split(':')[0]
        xs = list(args)
        k = 0
        opt = False
        i = 0
        outs = list(out)
        def fail(e):
            c.err = e
            return 0
        while i < len(fmt):
            ch = fmt[i]
            i += 1
            if ch == '|':
                opt = True
                continue
            conv = None
            if ch == 'O' and i < len(fmt) and fmt[i] == '&':
                i += 1
                conv = outs.pop(0)
            cell = outs.pop(0)
            if k >= len(xs):
                if opt:
                    continue
                return fail(TypeError)
            x = xs[k]
            k += 1
            if conv == 'sliceindex':
                if x is None:
                    continue
                if not isint(x):
                    return fail(TypeError)
            elif conv is not None or ch not in 'On':
                raise Unsupported('PyArg_ParseTuple ' + fmt)
            elif ch == 'n' and not isint(x):
                return fail(TypeError)
            cell.x = x
        if k < len(xs):
            return fail(TypeError)
        return 1
    @a
    def PySlice_Unpack(sl, start, stop, step):
        c = cur()
        led()
        for b in (sl.start, sl.stop, sl.step):
            if b is not None and not isint(b):
                c.err = TypeError
                return -1
        st = 1 if sl.step is None else sl.step
        if mkbool(iz(st) == 0):
            c.err = ValueError
            return -1
        step.x = st
        start.x = stop.x = ('raw', sl)
        return 0
    @a
    def PySlice_AdjustIndices(n, start, stop, step):
        sl = start.x[1]
        lo, hi, ln = slice_bounds(sl, n, step)
        start.x, stop.x = lo, hi
        return ln
    @a
    def PyImport_ImportModule(name):
        o = ('module', name)
        led()
        cur().newobjs.append(o)
        return o
    @a
    def PyObject_GetAttrString(o, name):
        r = ('attr', o, name)
        led()
        cur().newobjs.append(r)
        return r
    @a
    def PyObject_CallFunctionObjArgs(f, *a):
        o = ('call', f) + a
        led()
        cur().newobjs.append(o)
        return o
    @a
    def PyMem_Malloc(n):
        if n != 264:
            raise Unsupported('allocation')
        return alloc()
    @a
    def PyMem_Free(p):
        free(p)
    api['EMPTY_VECTOR'] = None
    api['transform_fn'] = None
    return api

def slice_bounds(sl, n, step):
    """start, stop, length of slice.indices(n) with the defining facts of the positions"""
    c = cur()
    nn = iz(n)
    st = iz(step)
    pos = bool(mkbool(st > 0))
    def cl(b, d):
        if b is None:
            return d
        t = iz(b)
        t = z3.If(t < 0, t + nn, t)
        return z3.If(t < 0, z3.IntVal(0), z3.If(t > nn, nn, t)) if pos else z3.If(t < 0, z3.IntVal(-1), z3.If(t > nn - 1, nn - 1, t))
    lo = cl(sl.start, z3.IntVal(0) if pos else nn - 1)
    hi = cl(sl.stop, nn if pos else z3.IntVal(-1))
    if isinstance(step, int) and abs(step) == 1:
        ln = mkint(z3.If(hi > lo, hi - lo, 0) if pos else z3.If(lo > hi, lo - hi, 0))
    else:
        ln = c.int('slicelen')
        c.assume(z3.And(ln.t >= 0, ln.t <= nn, (ln.t > 0) == ((hi > lo) if pos else (lo > hi))))
        # the last position is on this side of the end, the next one is not
        c.assume(z3.Implies(ln.t > 0, z3.And((lo + (ln.t - 1) * st < hi) if pos else (lo + (ln.t - 1) * st > hi), (lo + ln.t * st >= hi) if pos else (lo + ln.t * st <= hi))))
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < ln.t), z3.And(lo + t * st >= 0, lo + t * st < nn)))
    return mkint(lo), mkint(hi), ln

def alloc():
    led()
    n = NN()
    cur().newnodes.append(n)
    return n
def free(p):
    c = cur()
    if p is None:
        return
    if isinstance(p, NN):
        p.live()
        p.freed = True
        return
    if isinstance(p, (CN, TN)):
        # only once the count has gone to zero
        rc = rc_base(p) + delta(p)
        c.prove(z3.And(rc == 0), 'memory: only nodes without references are freed')
        c.freed_old.append(p)
        return
    raise Unsupported('free')

# ------------------------------------------------------------------ loops over the items of a node
def skey(s):
    if hasattr(s, 'node'):
        return ('node', s.node.tree.uid, s.node.level, str(s.node.m))
    if getattr(s, 'isv', False):
        return ('v', str(s.n), str(s.term(z3.Int('p!'))))
    return id(s)
class RefLoop:
    """for (i = 0; i < 32; i++) ...: iterations that only change reference counts of item i (or hand it to a function known by
    contract).  A generic iteration is run first; what it records for item i is then recorded for all items."""
    def __init__(self, rt_, L, loc, i):
        self.L, self.i = L, i
        self.key = ('refloop', L.qual, L.line, tuple(map(str, cur().trail)))
        self.info = cur().store.tables.setdefault(self.key, [])
        L.refloop = self
    def first(self, loc, st):
        c = cur()
        led()
        names = self.L.names
        c.havocs += 1
        if c.choose(2) == 0:
            self.mode = 'iter'
            self.L.mode = 'refiter'
            self.k = c.int('item')
            c.assume(z3.And(self.k.t >= 0, self.k.t < 32))
            self.l0, self.pc0, self.mut0 = len(c.led), len(c.pc), len(c.mutlog)
            self.q0, c.quiet = c.quiet, c.quiet
            return [self.k if n == self.i else UNBOUND for n in names]
        self.mode = 'exit'
        self.L.mode = 'refexit'
        for rec in self.info:
            if rec.get('bad'):
                raise Unsupported('loop over the items of a node at %s: %s' % (self.L.qual, rec['bad']))
        eff = [r for r in self.info if r['ents']]
        if eff:
            # all effects concern the item itself; together they cover exactly the items that exist
            by = {}
            for r in eff:
                for (s, tag, d) in r['ents']:
                    by.setdefault((skey(s), tag, d), [s, [], tag, d])[1].append(r)
            for (s, rs, tag, d) in by.values():
                k = z3.Int('item!')
                def cs(r):
                    return z3.substitute(z3.And(*[z3.BoolVal(True)] + r['conds']), (r['k'], k))
                n = iz(s.n)
                hi = None
                others = [r for r in self.info if not any(r is x for x in rs)]
                for B in (32, 31, 30, 1, 0):
                    want = z3.And(k >= 0, k < B, k < n)
                    if all(c.check(z3.And(cs(r), z3.Not(want))) == z3.unsat for r in rs) and all(c.check(z3.And(cs(r), want)) == z3.unsat for r in others):
                        hi = B
                        break
                if hi is None:
                    raise Unsupported('loop over the items of a node at %s: not all items are treated alike' % self.L.qual)
                if hi < 32:
                    s = Slice(s, 0, mkint(z3.If(n < hi, n, z3.IntVal(hi))))
                if tag == 'count':
                    c.led.append(('seq', s, d))
                else:
                    c.marks = getattr(c, 'marks', []) + [(tag, s, d)]
        i = c.int('i')
        c.assume(z3.And(i.t >= 0, i.t <= 32))
        return [i if n == self.i else UNBOUND for n in self.L.names]
    def record(self, again, loc, st):
        c = cur()
        k = self.k
        r = dict(k=k.t, conds=[z3.And(k.t >= 0, k.t < 32)] + list(c.pc[self.pc0:]), ents=[])
        try:
            for o in c.mutlog[self.mut0:]:
                if not isinstance(o, (CN, TN, NN)):
                    raise Unsupported('something else is written')
            tot = []
            for (kind, t, d) in c.led[self.l0:] + getattr(c, 'marks_iter', []):
                if kind == 'seq' or kind == 'set':
                    raise Unsupported('nested effect')
                tag = 'count' if kind == 'one' else kind
                pr = c.prov.get(id(t))
                if pr is None or pr[0] is not t or not c.implied(iz(pr[2]) == k.t):
                    for e in list(c.prov.values()):
                        if isinstance(t, VList) and isinstance(e[0], VList) and c.implied(same_node(e[0], t)) and c.implied(iz(e[2]) == k.t):
                            pr = e
                            break
                    else:
                        raise Unsupported('effect on something other than the item')
                for x in tot:
                    if x[0] is pr[1] and x[1] == tag and tag == 'count':
                        x[2] += d
                        break
                else:
                    tot.append([pr[1], tag, d])
            r['ents'] = [tuple(x) for x in tot if x[2] or x[1] != 'count']
            if again and not c.implied(iz(st[self.L.names.index(self.i)]) == k.t + 1):
                raise Unsupported('the counter does not go up by one')
            if not again and r['ents']:
                raise Unsupported('effect in the iteration that leaves the loop')
        except Unsupported as e:
            r['bad'] = str(e)
        self.info.append(r)
        raise Stop()
    def again(self, loc, st):
        self.record(True, loc, st)
    def left_by_return(self, v):
        h = getattr(cur(), 'early_return', None)
        if h is None:
            self.info.append(dict(k=self.k.t, conds=[], ents=[], bad='returns from inside the loop'))
            raise Stop()
        h(self, v)

def ref_loops(H):
    def f(L, loc):
        if L.it is not None:
            return None
        names = [n for n in L.tnames if n in loc and n in L.names and type(loc[n]) is int and loc[n] == 0]
        rest = [n for n in L.tnames if n in loc and n not in names and n != '_C']
        if len(names) != 1 or rest or not L.qual.startswith('pvectorc:'):
            return None
        if any(isint(loc.get(n)) and n != names[0] for n in L.names):
            return None
        return RefLoop(H, L, loc, names[0])
    H.providers.append(f)
    wt, left = type(H).wtest, type(H).left
    def wtest(L, f):
        if L.mode == 'refexit':
            return False
        return wt(H, L, f)
    def lft(L):
        if L.mode == 'refiter':
            L.refloop.record(False, {}, [])
        return left(H, L)
    def leave(L, v):
        if L.mode == 'refiter':
            L.refloop.left_by_return(v)
        return v
    H.wtest, H.left, H.leave = wtest, lft, leave
