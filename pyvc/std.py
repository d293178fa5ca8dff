"""Contracts assumed for the standard library (trusted): collections.abc mixins, functools.reduce, itertools."""
import types, collections.abc as cabc, ast, sys
import rt, core
from rt import *
from load import Tr

PRELUDE = '''
def reduce(function, iterable, *init):
    it = _H.b_iter(iterable)
    if init:
        acc = init[0]
    else:
        acc = _H.b_next(it)
    for x in it:
        acc = function(acc, x)
    return acc
def reduce0(function, iterable):
    return reduce(function, iterable)
'''

def make(H):
    class Meta(type):
        def __instancecheck__(cls, x):
            return H.b_isinstance(x, cls)
    def abc_shim(name, real):
        ns = dict(_reg=[], _real=real)
        def register(k):
            ns2 = sh
            sh._reg.append(k)
            return k
        sh = Meta(name, (), ns)
        sh.register = staticmethod(register)
        return sh
    Sequence = abc_shim('Sequence', cabc.Sequence)
    Hashable = abc_shim('Hashable', cabc.Hashable)
    Mapping = abc_shim('Mapping', cabc.Mapping)
    Set = abc_shim('Set', cabc.Set)
    Iterable = abc_shim('Iterable', cabc.Iterable)
    def s_count(self, value):
        return CountOf(as_seq(self), value)
    def s_index(self, value, start=0, stop=None):
        # contract of collections.abc.Sequence.index: first position in [start, stop) with the clamping of slices, else ValueError
        s = as_seq(self)
        lo, hi, _ = norm_slice(slice(start, stop), s.n)
        r = find_first(s, value, lo, hi)
        if r is None:
            raise HRaised(ValueError())
        return r
    Sequence.count = s_count
    Sequence.index = s_index
    def m_get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    Mapping.get = m_get
    def m_ne(self, other):
        r = type(self).__eq__(self, other)
        return r if r is NotImplemented else H_not(r)
    Mapping.__ne__ = m_ne
    shims = dict(Sequence=Sequence, Hashable=Hashable, Mapping=Mapping, Set=Set, Iterable=Iterable)
    def rule(x, t):
        for sh in (Sequence, Hashable, Mapping, Set, Iterable):
            if t is sh:
                if isinstance(x, (SymVal,)):
                    raise Unsupported('isinstance of an element')
                if hasattr(type(x), 'visabc'):
                    return x.visabc(sh.__name__)
                for k in sh._reg:
                    if H.b_isinstance(x, k):
                        return True
                if isinstance(x, VList):
                    return issubclass(list, sh._real)
                if isinstance(x, VTuple):
                    return issubclass(tuple, sh._real)
                if isinstance(x, VDict):
                    return issubclass(dict, sh._real)
                if isinstance(x, VSet):
                    return issubclass(set, sh._real)
                if isinstance(x, (SymInt,)):
                    return issubclass(int, sh._real)
                return isinstance(x, sh._real)
        return None
    H.isinst.append(rule)
    H.shims = shims
    abcm = types.ModuleType('collections.abc')
    for k, v in vars(cabc).items():
        if not k.startswith('__'):
            setattr(abcm, k, v)
    for k, v in shims.items():
        setattr(abcm, k, v)
    # collections.abc.Set: the real mixin methods, extracted from the standard library's source
    import _collections_abc, builtins
    tree = ast.parse(open(_collections_abc.__file__).read())
    node = next(n for n in tree.body if isinstance(n, ast.ClassDef) and n.name == 'Set')
    node.bases, node.keywords = [], []
    node.name = 'Mixin'
    sm = types.ModuleType('vc_set')
    bi0 = dict(vars(builtins))
    bi0.update(H.builtins())
    bi0['_locals'] = builtins.locals
    sm.__dict__.update(_H=H, Set=Set, Iterable=Iterable, sys=sys, __builtins__=bi0)
    exec(compile(ast.fix_missing_locations(Tr('collections.abc').visit(ast.Module([node], []))), 'collections.abc', 'exec'), sm.__dict__)
    for k, v in vars(sm.Mixin).items():
        if callable(v) and k not in ('__new__', '__class__'):
            setattr(Set, k, v)
    def s_ne(self, other):
        r = type(self).__eq__(self, other)
        return r if r is NotImplemented else H_not(r)
    Set.__ne__ = s_ne            # object.__ne__
    # functools
    pre = types.ModuleType('vc_prelude')
    pre.__dict__['_H'] = H
    import builtins
    bi = dict(vars(builtins))
    bi.update(H.builtins())
    bi['_locals'] = builtins.locals
    pre.__dict__['__builtins__'] = bi
    tree = ast.fix_missing_locations(Tr('prelude').visit(ast.parse(PRELUDE)))
    exec(compile(tree, 'prelude', 'exec'), pre.__dict__)
    import functools, itertools
    fm = types.ModuleType('functools')
    for k in dir(functools):
        if not k.startswith('__'):
            setattr(fm, k, getattr(functools, k))
    fm.reduce = pre.reduce
    im = types.ModuleType('itertools')
    for k in dir(itertools):
        if not k.startswith('__'):
            setattr(im, k, getattr(itertools, k))
    class chain:
        def __new__(cls, *its):
            s = rt.EMPTY
            for i in its:
                s = s + seq_of(i)
            return VIter(s)
        @staticmethod
        def from_iterable(it):
            h = getattr(H, 'flatten_hook', None)
            if h is not None:
                return h(it)
            raise Unsupported('chain.from_iterable')
    def islice(it, *a):
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            raise Unsupported('islice with a step')
        s = seq_of(it)
        if not mkbool(z3.And(iz(lo) >= 0, iz(hi) >= 0) if hi is not None else iz(lo) >= 0):
            raise HRaised(ValueError('Indices for islice() must be non-negative'))
        if hi is None:
            hi = s.n
        return VIter(seq_slice(s, slice(lo, hi, None)))
    im.chain = chain
    im.islice = islice
    def imp(name):
        if name == 'collections.abc':
            return abcm
        if name == 'functools':
            return fm
        if name == 'itertools':
            return im
        return None
    H.import_module = imp
    return H
