"""Representation of the persistent vector trie: arbitrary well-formed vectors of symbolic length (concrete depth), the walk that
checks a result vector at an arbitrary index, and ownership of nodes in an evolver."""
import core, rt, z3
from rt import *

MAXSHIFT = 35

class Tree:
    """trie over the elements 0 .. T-1 of D; every node is determined by (level, m): it covers [m*32^(l/5+1), (m+1)*...)"""
    def __init__(self, D, T, label, owned=None):
        self.D, self.T, self.label, self.owned = D, T, label, owned
        c = cur()
        c.uidc = self.uid = getattr(c, 'uidc', 0) + 1
        self.writes = []          # (level, m, index, value) in-place stores into owned inner nodes

def node_len(T, level, m):
    """children of node (level, m): those c with 32m <= c < 32m+32 whose first element c*2^level is below T"""
    C = iz(shr(mkint(iz(T) - 1), level)) + 1
    r = C - 32 * iz(m)
    return z3.simplify(z3.If(r <= 0, 0, z3.If(r >= 32, 32, r)))

class VNode(VList):
    """a node of an existing vector (or evolver)"""
    def __init__(self, tree, level, m):
        self.tree, self.level, self.m = tree, level, m
        self.serial = -1
        self.frozen = tree.label
        self.n = mkint(node_len(tree.T, level, m))
        self.parent = None
    @property
    def s(self):
        t = self.tree
        if self.level == 0:
            return Slice(t.D, self.m * 32, self.n)
        def child(i):
            for (l, m, k, v) in reversed(t.writes):
                if l == self.level and mkbool(z3.And(iz(m) == iz(self.m), iz(k) == iz(i))):
                    return v
            r = type(self)(t, self.level - 5, mkint(iz(self.m) * 32 + iz(i)))
            if t.owned:     # invariant of evolvers: below a node that is not marked as owned nothing is
                cur().assume_raw(z3.Implies(r.is_owned(), self.is_owned()))
            return r
        r = Fn(self.n, gf=child)
        r.node = self
        return r
    def touch(self):
        frame_violation(self.frozen)
    def is_owned(self):
        return self.tree.owned(self.level, iz(self.m)) if self.tree.owned else z3.BoolVal(False)
    def __setitem__(self, i, v):
        c = cur()
        c.mutlog.append(self)
        c.prove(self.is_owned(), 'frame: only nodes created by this evolver are written (%s)' % self.frozen)
        if not isint(i):
            raise Unsupported('store into a node')
        if mkbool(iz(i) < 0):
            i = i + self.n
        if not mkbool(z3.And(iz(i) >= 0, iz(i) < iz(self.n))):
            raise HRaised(IndexError('list assignment index out of range'))
        if self.level == 0:
            self.tree.D = Upd(self.tree.D, mkint(iz(self.m) * 32 + iz(i)), v)
        else:
            self.tree.writes.append((self.level, self.m, i, v))
    def vis(self, o):
        if o is self:
            return True
        if isinstance(o, VNode) and o.tree is self.tree and o.level == self.level:
            return mkbool(iz(o.m) == iz(self.m))
        if isinstance(o, VNode):
            raise Unsupported('identity of nodes of different tries')
        return False

def levels_of(T, L):
    """T fits a trie of depth L and does not fit a shallower one"""
    cap = 1 << (L + 5)
    c = [iz(digit(iz(T))[1]) == 0, iz(T) >= 0, iz(T) <= cap]
    if L > 5:
        c.append(iz(T) > (1 << L))
    return z3.And(*c)

def mkvec(cls, D, L, tail_len=None, label='an existing vector', frozen=True):
    """arbitrary well-formed vector with contents D and depth L"""
    c = cur()
    tl = c.int('taillen') if tail_len is None else tail_len
    T = mkint(iz(D.n) - iz(tl))
    c.assume(z3.And(iz(tl) >= 0, iz(tl) <= 32, levels_of(T, L)))
    v = object.__new__(cls)
    tr = Tree(D, T, 'node of ' + label)
    fill(v, D, L, T, tl, tr, label if frozen else None)
    if frozen:
        c.frozen[id(v)] = (label, ())
    c.keep.append(v)
    return v

def fill(v, D, L, T, tl, tr, tail_label):
    v._count = D.n
    v._shift = L
    v._root = VNode(tr, L, 0)
    v._tail = VList(Slice(D, T, tl), frozen=('tail of ' + tail_label) if tail_label else None)
    v._tail_offset = T

def check_vec(v, W, name, tail_offset=True, fields=True):
    """obligations: v is well-formed and its contents are W"""
    c = cur()
    if c.quiet:
        return
    cnt, L, root, tail = v._count, v._shift, v._root, v._tail
    if not (isint(cnt) and isinstance(L, int) and isinstance(root, VList) and isinstance(tail, VList)):
        c.prove(False, name + ': representation', 'unexpected kinds of fields')
        return
    c.prove(L % 5 == 0 and L >= 5, name + ': depth')
    c.prove(iz(cnt) == iz(W.n), name + ': length')
    tl = tail.s.n
    c.prove(z3.And(iz(tl) >= 0, iz(tl) <= 32), name + ': tail length')
    T = mkint(iz(cnt) - iz(tl))
    if tail_offset:
        c.prove(iz(v._tail_offset) == iz(T) if isint(v._tail_offset) else False, name + ': tail offset')
    c.prove(levels_of(T, L), name + ': depth fits the length')
    prove_same_seq(tail.s, Slice(W, T, tl), name + ': tail contents')
    q = c.int('q')
    def f():
        c.assume(z3.And(q.t >= 0, q.t < iz(T)))
        c.reg(q)
        walk(root, L, q, T, W, name)
    side(f)

def walk(node, L, q, T, W, name):
    """from node at depth L down to the element q"""
    c = cur()
    l = L
    while True:
        m = shr(q, l + 5)
        if not isinstance(node, VList):
            c.prove(False, name + ': trie shape', 'a %s where a node is expected' % type(node).__name__)
            raise Stop()
        if isinstance(node, VNode) and not [w for w in node.tree.writes if w[0] <= l]:
            t = node.tree
            w = 1 << (l + 5)
            end = (iz(m) + 1) * w
            if l != node.level:
                c.prove(False, name + ': trie shape', 'node of another level')
                raise Stop()
            c.prove(iz(node.m) == iz(m), name + ': trie position')
            c.prove(z3.If(iz(T) < end, iz(T), end) == z3.If(iz(t.T) < end, iz(t.T), end), name + ': shared subtree covers the same range')
            c.prove(t.D.term(q.t) == W.term(q.t), name + ': elements')
            return node
        c.prove(iz(node.s.n) == node_len(T, l, m), name + ': node length')
        i = digit(iz(shr(q, l)))[1]
        x = node.s.get(i)
        if l == 0:
            prove_same(x, W.get(q), name + ': elements')
            return node
        node, l = x, l - 5

def content_of(v):
    """contents of a vector assembled from an intact trie and a tail (obligation: the parts fit)"""
    c = cur()
    root, tail, L = v._root, v._tail, v._shift
    if isinstance(tail, VList) and isinstance(root, VList) and not isinstance(root, VNode) and isinstance(root.s.n, int) and root.s.n == 0:
        c.prove(iz(v._count) == iz(tail.s.n), 'vector assembled from parts that fit')
        return tail.s
    if not isinstance(root, VNode) or not isinstance(tail, VList) or root.tree.writes:
        raise Unsupported('vector assembled from unrelated parts')
    T = root.tree.T
    c.prove(z3.And(z3.BoolVal(root.level == L), iz(root.m) == 0, iz(v._count) == iz(T) + iz(tail.s.n)), 'vector assembled from parts that fit')
    d = root.tree.D
    s = tail.s
    if isinstance(s, Slice) and s.a is d and c.implied(iz(s.lo) == iz(T)):
        return d if c.implied(iz(d.n) == iz(v._count)) else Slice(d, 0, v._count)
    return Slice(d, 0, T) + s

# ------------------------------------------------------------------ evolver
class VTail(VList):
    """the tail of an evolver: its own copy or still that of the vector it came from"""
    def __init__(self, s, own):
        VList.__init__(self, s)
        self.own = own
    def touch(self):
        cur().mutlog.append(self)
        cur().prove(self.own, 'frame: the tail of an existing vector is not written')

class OwnedSet:
    """ids of the nodes owned by the evolver"""
    def __init__(self, tree, tail, anyd):
        self.tree, self.tail, self.anyd = tree, tail, anyd
        self.added = []
    def _has(self, tok):
        c = cur()
        if not isinstance(tok, IdTok):
            raise Unsupported('lookup in the set of owned nodes')
        o = tok.o
        if any(x is o for x in self.added):
            return z3.BoolVal(True)
        if isinstance(o, VNode) and o.tree is self.tree:
            r = o.is_owned()
        elif o is self.tail:
            r = self.tail.own
        else:
            return z3.BoolVal(False)
        c.assume_raw(z3.Implies(r, self.anyd))
        return r
    def vcontains(self, tok): return mkbool(self._has(tok))
    def get(self, tok, d=None): return True if mkbool(self._has(tok)) else d
    def __setitem__(self, tok, v):
        self.add(tok)
    def add(self, tok):
        c = cur()
        if not isinstance(tok, IdTok):
            raise Unsupported('owned nodes')
        o = tok.o
        own = o.is_owned() if isinstance(o, VNode) else self.tail.own if o is self.tail else isinstance(o, VList) and not o.frozen
        c.prove(own, 'frame: only nodes created by the evolver are marked as its own')
        self.added.append(o)
    def vtruth(self):
        return True if self.added else mkbool(self.anyd)
class LeafCache:
    """index of a leaf -> leaf, for owned leaves only"""
    def __init__(self, tree, tail, anyd):
        self.tree, self.tail, self.anyd = tree, tail, anyd
        self.f = cur().fun('cached', z3.IntSort(), z3.BoolSort())
        self.sets = []
    def get(self, j, d=None):
        c = cur()
        for (k, v) in reversed(self.sets):
            if mkbool(iz(k) == iz(j)):
                return v
        if mkbool(self.f(iz(j))):
            tj = digit(iz(self.tree.T))[0]
            c.assume(z3.And(iz(j) >= 0, iz(j) <= iz(tj), self.anyd))
            if mkbool(iz(j) == iz(tj)):
                c.assume(z3.And(self.tail.own, iz(self.tail.s.n) > 0))
                return self.tail
            n = VNode(self.tree, 0, j)
            c.assume(n.is_owned())
            return n
        return d
    def vcontains(self, j): return self.get(j) is not None
    def __getitem__(self, j):
        r = self.get(j)
        if r is None:
            raise HRaised(KeyError())
        return r
    def __setitem__(self, j, v):
        self.sets.append((j, v))
