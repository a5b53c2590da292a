"""C05, C06, C20: the chain rule in forward and reverse mode, left multiplication, products and storage of Jacobians.
One node with arbitrary inputs; the inputs obey the contracts (induction over the height of the expression)."""
import types, z3, core, load, stubs, matalg
from fractions import Fraction
from core import *
from matalg import *

_M = []
def mods():
    if not _M:
        st = stubs.base_stubs(); num = matalg.install(st)
        m = load.fresh_chumpy(st, ('chumpy.ch',))
        m.numbers = num
        import sys
        _M.append((m, sys.modules['chumpy.utils'], num))
    return _M[0]

def dim(name):
    d = z3.Int('size_%s' % name); c = ctx()
    if name not in c.user.setdefault('dims', set()): c.user['dims'].add(name); c.assume(d >= 1)
    return d

class World(object):
    """local derivatives and children's Jacobians, by contract"""
    def __init__(self, m, what):
        self.m, self.tab, self.given = m, {}, []; self.what = what
        W = self
        Ch, Permute = m.Ch, m.Permute
        class Stub(object):
            """an input: a Ch object known only by its contract"""
        def mk(base):
            class Node(base):
                dterms = ('whatever',); terms = ()
                def dr_wrt(self, wrt, reverse_mode=False, profiler=None): return W.T(self, wrt)
                def lmult_wrt(self, lhs, wrt):
                    if lhs is None: return None
                    t = W.T(self, wrt)
                    return None if t is None else W.leftmul(lhs, t)
                def lop(self, wrt, lhs):
                    t = W.T(self, wrt)
                    return None if t is None else W.leftmul(lhs, t)
                def _call_on_changed(self): pass
                def is_dr_wrt(self, w): return W.T(self, w) is not None
                size = property(lambda self: SymInt(dim(self.nm)))
                shape = property(lambda self: (SymInt(dim(self.nm)),))
                def __repr__(self): return self.nm
            return Node
        self.leafcls, self.permcls = mk(Ch), mk(Permute)
    def node(self, name, cls=None):
        o = object.__new__(cls or self.leafcls); object.__setattr__(o, 'nm', name); return o
    def leftmul(self, lhs, t):
        c = ctx()
        if not isinstance(lhs, Mat): raise Unsupported('left factor %r' % (lhs,))
        c.prove('the left factor passed to an input has the input\'s width', lhs.cols == t.rows, fn())
        v = lhs._mul(t)
        r = Mat(v, lhs.rows, t.cols, ('dense', 'matrix', 'sparse', 'number'))
        return r
    light = False
    def _get(self, kind, a, b, tags):
        if self.light: tags = ('dense', 'sparse')
        k = (kind, a, b)
        if k not in self.tab:
            if ctx().choose(2): self.tab[k] = None
            else: self.tab[k] = self.keep(atom('%s[%s,%s]' % k, dim(a), dim(b), tags))
        return self.tab[k]
    def keep(self, m): self.given.append((m, dict(m.val))); return m
    def D(self, s, p): return self._get('D', s.nm, p.nm, ('dense', 'matrix', 'sparse', 'number', 'one'))
    def T(self, p, w):
        return self._get('T', p.nm, w.nm, ('dense', 'matrix', 'sparse'))
    def frame(self, f):
        for m, v in self.given: ctx().prove('matrices obtained from others are not modified', m.val == v, f)

def mknode(W, m, names, children, **attrs):
    """the node under test: the repository's methods; only compute_dr_wrt (and the slicing around it) by contract"""
    ns = dict(dterms=tuple(names) if isinstance(names, (list, tuple)) else names, terms=(), compute_dr_wrt=lambda self, wrt: W.D(self, wrt), compute_r=lambda self: None)
    if hasattr(m.Ch, '_compute_dr_wrt_sliced'): ns['_compute_dr_wrt_sliced'] = lambda self, wrt: W.D(self, wrt)
    cls = type('NodeUnderTest', (m.Ch,), ns)
    s = object.__new__(cls)
    import weakref
    d = s.__dict__
    d.update(nm='s', _dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': None, 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False)
    d.update(attrs); d.update(children)
    return s

def spec(W, s, wrt, kids):
    """D[s,wrt] + sum over the distinct inputs p other than wrt of D[s,p] T[p,wrt]"""
    tot = W.D(s, wrt); acc = None if tot is None else Mat(tot.val, tot.rows, tot.cols)
    seen = []
    for p in kids:
        if p is wrt or any(p is q for q in seen): continue
        seen.append(p)
        t = W.T(p, wrt)
        if t is None: continue
        d = W.D(s, p)
        if d is None: continue
        v = d._mul(t)
        if acc is None: acc = Mat(v, dim('s'), dim(wrt.nm))
        else:
            vv = dict(acc.val)
            for k, x in v.items(): vv[k] = vv.get(k, 0) + x
            acc = Mat({k: x for k, x in vv.items() if x}, acc.rows, acc.cols)
    return acc

def aliasing(n, w):
    """which inputs coincide: list of classes, each possibly the target"""
    c = ctx(); objs = []; out = []
    for i in range(n):
        opts = objs + [None]
        if w is not None and w not in objs: opts = opts + [w]
        k = c.choose(len(opts))
        o = opts[k]
        if o is None: o = W_[0].node('p%d' % len(objs)); 
        if o not in objs: objs.append(o)
        out.append(o)
    return out
W_ = [None]

class LazyBool(object):
    """an arbitrary flag, decided when it is first looked at"""
    def __init__(self, excl=None): self.v = None; self.excl = excl
    def __bool__(self):
        if self.v is None: self.v = False if (self.excl is not None and self.excl.v) else ctx().choose(2) == 1
        return self.v
class LazyParents(object):
    """the parents: none, one or more"""
    def __init__(self): self.v = None
    def keys(self):
        if self.v is None: self.v = ctx().choose(3)
        return ['parent%d' % i for i in range(self.v)]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.keys())
    def items(self): return [(k, {'varnames': {'q'}}) for k in self.keys()]

def superdot_contract(real):
    def _superdot(self, lhs, rhs, profiler=None):
        if lhs is None or rhs is None: return None
        if not isinstance(lhs, Mat) or not isinstance(rhs, Mat): return real(self, lhs, rhs)
        ctx().prove('factors have matching dimensions', lhs.cols == rhs.rows, fn())
        return Mat(lhs._mul(rhs), lhs.rows, rhs.cols, ('dense', 'sparse') if W_[0].light else TAGS[:4])
    return _superdot

def setup(arity, contract=True, light=False):
    m, utils, num = mods()
    W = World(m, ''); W.light = light; W_[0] = W
    w = W.node('w')
    kids = aliasing(arity, w)
    names = ['a', 'b', 'c', 'd'][:arity]
    md = LazyBool()
    s = mknode(W, m, names, dict(zip(names, kids)), _make_dense=md, _make_sparse=LazyBool(md), _parents=LazyParents())
    if arity > 1 or arity == 1 and ctx().choose(2):      # inputs declared on the object, next to those of its class
        type(s).dterms = tuple(names[:-1]); s.__dict__['dterms'] = list(names)
    if light: s.__dict__.update(_make_dense=False, _make_sparse=False); s._parents.v = 0
    if contract and hasattr(m.Ch, '_superdot'): type(s)._superdot = superdot_contract(m.Ch._superdot)
    return m, W, w, s, kids

def storage(res, s, f):
    c = ctx()
    if res is None: return
    if not isinstance(res, Mat): raise Unsupported('result %r' % (res,))
    c.prove('a Jacobian is a two-dimensional array or a sparse matrix', set(res.tags) <= {'dense', 'matrix', 'sparse'}, f)
    if s._make_dense: c.prove('dense storage if dense was requested', not res.ask('sparse'), f); c.cover('make_dense')
    if s._make_sparse: c.prove('sparse storage if sparse was requested', res.ask('sparse'), f); c.cover('make_sparse')

def e_dr(arity, reverse):
    def run():
        FN[0] = 'ch.Ch.dr_wrt'
        m, W, w, s, kids = setup(arity, light=arity > 1)
        c = ctx()
        want = spec(W, s, w, kids)
        f = 'ch.Ch.dr_wrt(reverse_mode=%s)' % reverse
        FN[0] = f
        res = s.dr_wrt(w, reverse_mode=True) if reverse else s.dr_wrt(w)
        prove_same('chain rule', res, want, f); storage(res, s, f)
        before = dict(res.val) if res is not None else None
        if arity == 0 or arity == 1 and w in s._cache['drs']:
            res2 = s.dr_wrt(w)                         # remembered or not, the same answer
            prove_same('chain rule, asked again', res2, want, f); storage(res2, s, f)
        W.frame(f)
        if res is not None: c.prove('a Jacobian handed out is not modified later', res.val == before, f)
        c.cover('absent' if want is None else 'present')
    return run

class Failure(Exception): pass
def e_failed(arity):
    """a differentiation that fails at any of the local derivatives or inputs leaves nothing behind"""
    def run():
        FN[0] = 'ch.Ch.dr_wrt'
        m, W, w, s, kids = setup(arity, light=True)
        c = ctx(); f = 'ch.Ch.dr_wrt'
        twin = object.__new__(type(s)); twin.__dict__.update(s.__dict__); twin.__dict__['_cache'] = {k: type(v)() if k == 'drs' else v for k, v in s._cache.items()}
        want = twin.dr_wrt(w)        # the same expression, never differentiated before
        left = [c.choose(4)]; D, T = W.D, W.T
        def fail(g):
            def h(*a):
                if left[0] == 0: raise Failure()
                left[0] -= 1; return g(*a)
            return h
        W.D, W.T = fail(D), fail(T)
        try: s.dr_wrt(w); c.cover('enough')
        except Failure: c.cover('failed')
        W.D, W.T = D, T
        prove_same('a failed differentiation leaves nothing behind: asked again', s.dr_wrt(w), want, f)
    return run

def left():
    c = ctx(); k = z3.Int('rows_L'); c.assume(k >= 1)
    atoms()['L'] = Atom('L', k, dim('s'))
    return Mat({(('L', False),): Fraction(1)}, k, dim('s'), ('dense', 'matrix', 'sparse', 'number'))

def e_left(arity, which):
    def run():
        m, W, w, s, kids = setup(arity, light=arity > 2)
        c = ctx(); L = W.keep(left())
        t = spec(W, s, w, kids)
        want = None if t is None else Mat(L._mul(t), L.rows, t.cols)
        f = 'ch.Ch.' + which; FN[0] = f
        res = s.lmult_wrt(L, w) if which == 'lmult_wrt' else s.lop(w, L)
        prove_same('left multiplication', res, want, f)
        if which == 'lmult_wrt':
            c.prove('no left factor, no result', s.lmult_wrt(None, w) is None, f)
        W.frame(f)
        c.cover('absent' if want is None else 'present')
    return run

# ---- any number of inputs: the loop over the inputs is cut by an invariant
class SymNames(load.SymIter):
    """self.dterms: any set of names"""
    def __init__(self, g): self.g = g
    def intersection(self, *o): return self
    def __iter__(self): raise Unsupported('enumeration of an unbounded set of inputs')
    def __contains__(self, n): return n == 'k*'
    def sym_loop(self, qual):
        g = self.g; c = ctx()
        if load.CARRIED.get(qual): raise Unsupported('loop %s carries %s' % (qual, sorted(load.CARRIED[qual])))
        return g.cut(qual)

class Bulk(object):
    """contributions collected so far: at least one, their sum is the atom S"""
    def __init__(self, mat, count, tags): self.mat, self.count, self.tags = mat, count, tags

class SymList(list, load.SymIter):
    """a list of matrices: known items plus an unknown number of others"""
    bulk = None
    def __init__(self, it=(), bulk=None): list.__init__(self, it); self.bulk = bulk
    def __symlen__(self):
        n = list.__len__(self)
        if self.bulk is None: return n
        return SymInt(self.bulk.count + n)
    def __getitem__(self, k):
        if self.bulk is None and not isinstance(k, slice): return list.__getitem__(self, k)
        if isinstance(k, GenericIndex): return k.elem(self)
        if k in (0, -1) and list.__len__(self) == 0 and valid(self.bulk.count == 1): return Mat(self.bulk.mat.val, self.bulk.mat.rows, self.bulk.mat.cols, self.bulk.tags)
        raise Unsupported('element %r of a list of unknown length' % (k,))
    def __setitem__(self, k, v):
        if isinstance(k, GenericIndex): return k.set(self, v)
        if self.bulk is not None: raise Unsupported('assignment to a list of unknown length')
        list.__setitem__(self, k, v)
    def __iter__(self):
        if self.bulk is not None: raise Unsupported('enumeration of a list of unknown length')
        return list.__iter__(self)
    def __bool__(self): return bool(self.__symlen__() != 0)
    def extend(self, o):
        if isinstance(o, SymList) or not isinstance(o, (list, tuple)): raise Unsupported('extend by %r' % (o,))
        for x in o: self.append(x)
    def __iadd__(self, o): self.extend(o); return self
    def _no(self, *a, **k): raise Unsupported('operation on a list of unknown length')
    __add__ = __radd__ = __mul__ = insert = pop = remove = clear = copy = reverse = sort = __delitem__ = index = count = __reversed__ = __len__ = __contains__ = _no
    def sym_loop(self, qual):
        if self.bulk is None: return list.__iter__(self)
        raise Unsupported('loop %s over a list of unknown length' % qual)
    def sym_map(self, f, cond):
        if self.bulk is None: return SymList([f(x) for x in list.__iter__(self) if cond is None or cond(x)])
        if cond is not None: raise Unsupported('filter of a list of unknown length')
        items = [f(x) for x in list.__iter__(self)]
        # an arbitrary element of the rest, in each storage it may have
        c = ctx(); rows, cols = self.bulk.mat.rows, self.bulk.mat.cols; out = set(); kind = None
        tags = [t for t in self.bulk.tags if t not in ('number', 'one')]
        if len(tags) < len(self.bulk.tags) and c.fork(z3.And(rows == 1, cols == 1)): tags = list(self.bulk.tags)
        for t in tags:
            G = atom(c.fresh('G'), rows, cols, (t,)); v0 = dict(G.val)
            r = f(G)
            if isinstance(r, bool):
                # a property of the elements: only constant ones are understood
                if r: raise Unsupported('property of the elements of a list of unknown length')
                kind = 'flags'; continue
            if not isinstance(r, Mat): raise Unsupported('map over a list of unknown length')
            c.prove('conversion of the summands keeps their entries', same(r, Mat(v0, rows, cols)) and G.val == v0, fn())
            out |= set(r.tags)
        if kind == 'flags':
            if out: raise Unsupported('map over a list of unknown length')
            return SymFlags(items)
        return SymList(items, Bulk(self.bulk.mat, self.bulk.count, tuple(t for t in TAGS if t in out)))
    def sum(self, op):
        """reduce(op, list)"""
        if self.bulk is None:
            import functools
            return functools.reduce(op, list(list.__iter__(self)))
        X = atom(ctx().fresh('X'), self.bulk.mat.rows, self.bulk.mat.cols, self.bulk.tags); Y = atom(ctx().fresh('Y'), self.bulk.mat.rows, self.bulk.mat.cols, self.bulk.tags)
        xv, yv = dict(X.val), dict(Y.val)
        Z = op(X, Y)
        ctx().prove('the combination of two summands is their sum', isinstance(Z, Mat) and same(Z, Mat(dict(list(xv.items()) + list(yv.items())), X.rows, X.cols)), fn())
        ctx().prove('summing does not modify the summands', X.val == xv and Y.val == yv, fn())
        v = dict(self.bulk.mat.val)
        for i in list.__iter__(self):
            for k, x in i.val.items(): v[k] = v.get(k, 0) + x
        return Mat({k: x for k, x in v.items() if x}, self.bulk.mat.rows, self.bulk.mat.cols, tuple(sorted(set(self.bulk.tags) | set(Z.tags))))
    def __hash__(self): return id(self)

class SymFlags(list, load.SymIter):
    def sym_loop(self, q): return list.__iter__(self)
    def sym_map(self, f, cond): return [f(x) for x in list.__iter__(self)]

class GenericIndex(object):
    def __init__(self): self.e = None; self.new = None
    def elem(self, l):
        if self.new is not None: return self.new
        if self.e is None: self.e = atom(ctx().fresh('G'), l.bulk.mat.rows, l.bulk.mat.cols, l.bulk.tags); self.v0 = dict(self.e.val)
        return self.e
    def set(self, l, v):
        e = self.elem(l)
        ctx().prove('conversion of the summands keeps their entries', isinstance(v, Mat) and same(v, Mat(self.v0, e.rows, e.cols)), fn())
        self.new = v

class SymRange(load.SymIter):
    """range(len(list of unknown length)): one arbitrary position"""
    def __init__(self, g): self.g = g
    def sym_loop(self, qual):
        g = self.g; c = ctx()
        if load.CARRIED.get(qual): raise Unsupported('loop %s carries %s' % (qual, sorted(load.CARRIED[qual])))
        ls = [l for l in g.lists if l.bulk is not None]
        if len(ls) != 1: raise Unsupported('range over a symbolic length')
        l = ls[0]
        def gen():
            if c.choose(2) == 0:
                k = GenericIndex()
                yield k
                if k.new is not None: c.prove('elements of a list converted in place are not sparse', not k.new.ask('sparse'), fn())
                elif k.e is not None and k.e.tags != l.bulk.tags: c.prove('elements of a list left alone are not sparse', 'sparse' not in k.e.tags, fn())
                raise PathEnd()
            # all known items, then: every element was visited (the arbitrary one, on the other paths)
            for i in range(list.__len__(l)):
                if list.__getitem__(l, i).ask('sparse'): list.__setitem__(l, i, list.__getitem__(l, i).todense())
            l.bulk.tags = tuple(t for t in l.bulk.tags if t != 'sparse')
            return
        return gen()

def _tno(self, *a, **k): raise Unsupported('operation on the set of inputs seen')
class TSet(set):
    """a set of ids built by the code; after the loop was cut it also contains the ids of all earlier inputs"""
    old = None
    def __contains__(self, k):
        if set.__contains__(self, k): return True
        return self.old is not None and k in self.old
    __or__ = __and__ = __sub__ = union = copy = difference = intersection = discard = remove = pop = __iter__ = __len__ = _tno
    def __ior__(self, o): self.update(o); return self

class Generic(object):
    """ghost state of the cut loop"""
    def __init__(self, W, s, w): self.W, self.s, self.w = W, s, w; self.lists, self.sets = [], []; self.done = False; self.L = None; self.state = None
    def contrib(self, p):
        W = self.W
        if p is self.w: return None
        t = W.T(p, self.w)
        if t is None: return None
        d = W.D(self.s, p)
        if d is None: return None
        v = d._mul(t) if self.L is None else Mat(self.L._mul(d), self.L.rows, d.cols)._mul(t)
        return v
    def direct(self):
        d = self.W.D(self.s, self.w)
        if d is None: return None
        return d.val if self.L is None else self.L._mul(d)
    def rows(self): return dim('s') if self.L is None else self.L.rows
    def total(self, l):
        v = {}
        for i in list.__iter__(l):
            if not isinstance(i, Mat): raise Unsupported('element %r' % (i,))
            for k, x in i.val.items(): v[k] = v.get(k, 0) + x
        if l.bulk is not None:
            for k, x in l.bulk.mat.val.items(): v[k] = v.get(k, 0) + x
        return {k: x for k, x in v.items() if x}
    def cut(self, qual):
        c = ctx(); s, W, w = self.s, self.W, self.w
        if self.done: raise Unsupported('a second loop over the inputs')
        self.done = True
        ls = [l for l in self.lists]
        if len(ls) != 1: raise Unsupported('%d lists at the loop over the inputs' % len(ls))
        l = ls[0]; f = fn()
        if len(self.sets) > 1: raise Unsupported('several sets')
        vs = self.sets[0] if self.sets else None
        def empty_and_value(where, want_empty, want):
            n = list.__len__(l)
            got_empty = n == 0 and l.bulk is None
            c.prove('invariant (%s): nothing collected iff nothing contributed' % where, got_empty == want_empty, f)
            if not got_empty and not want_empty:
                a, b = Mat(self.total(l), self.rows(), dim('w')), Mat(want, self.rows(), dim('w'))
                ok = same(a, b)
                c.prove('invariant (%s): collected matrices sum to the contributions of the inputs seen' % where, ok, f)
                if not ok: c.obl[-1].detail = 'collected %s, specified %s; ' % (show(a.val), show(b.val)) + c.obl[-1].detail
        d = self.direct()
        empty_and_value('on entry', d is None, d or {})
        snap = dict(s.__dict__); snapT = dict(W.tab)
        def gen():
            # arbitrary state satisfying the invariant
            base = list(list.__iter__(l)); nsome = c.choose(2)
            S = None
            if nsome:
                S = atom('S', self.rows(), dim('w'))
                cnt = z3.Int('contributions'); c.assume(cnt >= 1)
                tags = ('dense', 'matrix', 'sparse') if self.L is None else ('dense', 'matrix', 'sparse', 'number')
                l.bulk = Bulk(S, cnt, tags)
            if vs is not None: set.clear(vs); vs.old = set()
            def want_val(extra=None):
                v = dict(d or {})
                if S is not None:
                    for k, x in S.val.items(): v[k] = v.get(k, 0) + x
                for k, x in (extra or {}).items(): v[k] = v.get(k, 0) + x
                return v
            self.state = ('exit', S)
            if c.choose(2) == 0:
                # one more input: the target itself, one seen before, or a new one
                kind = c.choose(3)
                p = w if kind == 0 else W.node('p')
                if kind == 1 and vs is not None: vs.old.add(id(p))
                s.__dict__['k*'] = p
                ex = self.contrib(p) if kind == 2 else None
                c.cover(['target', 'seen', 'new'][kind])
                yield 'k*'
                some = (d is not None) or S is not None or ex is not None
                empty_and_value('preserved', not some, want_val(ex))
                if kind != 0 and vs is not None: c.prove('an input seen is remembered', id(p) in vs, f)
                s.__dict__.pop('k*', None)
                now = dict(s.__dict__)
                for k in ('called_dr_wrt', '_status', '_cache', '_dirty_vars'): now.pop(k, None); snap.pop(k, None)
                if now != snap: raise Unsupported('the loop over the inputs changes the node')
                W.frame(f)
                raise PathEnd()
            self.final_empty = (d is None) and S is None
            self.final = want_val()
            c.cover('after the loop')
            return
        return gen()

def generic_setup(which):
    m, utils, num = mods()
    W = World(m, ''); W_[0] = W; w = W.node('w')
    FN[0] = f = 'ch.Ch.' + which
    md = LazyBool()
    s = mknode(W, m, (), {}, _make_dense=md, _make_sparse=LazyBool(md), _parents=LazyParents())
    if hasattr(m.Ch, '_superdot'): type(s)._superdot = superdot_contract(m.Ch._superdot)
    g = Generic(W, s, w)
    type(s).dterms = SymNames(g)
    def hook(l):
        if l: return l
        r = SymList(); g.lists.append(r); return r
    def mset(*a):
        if not a: r = TSet(); g.sets.append(r); return r
        return a[0] if isinstance(a[0], SymNames) else set(a[0])
    import functools
    over = dict(set=mset, sorted=lambda x, **k: x if isinstance(x, SymNames) else sorted(x, **k), list=lambda *a: a[0] if a and isinstance(a[0], SymNames) else list(*a),
                reduce=lambda f_, l, *a: l.sum(f_) if isinstance(l, SymList) and not a else functools.reduce(f_, l, *a),
                range=lambda *a: SymRange(g) if len(a) == 1 and isinstance(a[0], SymInt) else range(*[x if isinstance(x, int) else x.__index__() for x in a]))
    return m, W, w, s, g, f, hook, over

def with_over(m, hook, over, thunk):
    old = {k: m.__dict__.get(k, with_over) for k in over}
    m.__dict__.update(over); load.HOOKS['list'] = hook
    try: return thunk()
    finally:
        load.HOOKS['list'] = None
        for k, v in old.items():
            if v is with_over: m.__dict__.pop(k, None)
            else: m.__dict__[k] = v

def e_generic(which):
    def run():
        m, W, w, s, g, f, hook, over = generic_setup(which.split('(')[0])
        c = ctx(); f = 'ch.Ch.' + which; FN[0] = f
        if which in ('lop', 'lmult_wrt'):
            g.L = W.keep(left())
            res = with_over(m, hook, over, lambda: s.lmult_wrt(g.L, w) if which == 'lmult_wrt' else s.lop(w, g.L))
        else:
            res = with_over(m, hook, over, lambda: s.dr_wrt(w, reverse_mode=('True' in which)))
        if not g.done: raise Unsupported('no loop over the inputs was found')
        want = None if g.final_empty else Mat(g.final, g.rows(), dim('w'))
        prove_same('any number of inputs', res, want, f)
        if which.startswith('dr_wrt'): storage(res, s, f)
        W.frame(f); c.cover('result')
    return run

# ---- products, storage
def e_superdot():
    m, utils, num = mods(); c = ctx()
    FN[0] = f = 'ch.Ch._superdot'
    W = World(m, ''); s = mknode(W, m, (), {})
    a, b, d = dim('a'), dim('b'), dim('d')
    kinds = c.choose(3)
    A = None if kinds == 1 else W.keep(atom('A', a, b, ('dense', 'matrix', 'sparse', 'number', 'one')))
    B = None if kinds == 2 else W.keep(atom('B', b, d, ('dense', 'matrix', 'sparse', 'number', 'one')))
    r = s._superdot(A, B)
    want = None if A is None or B is None else Mat(A._mul(B), a, d)
    prove_same('product of two derivative matrices', r, want, f); W.frame(f)
    c.cover('absent' if want is None else 'present')

def e_convert():
    m, utils, num = mods(); c = ctx()
    FN[0] = f = 'utils.convert_inputs_to_sparse_if_necessary'
    W = World(m, '')
    A = W.keep(atom('A', dim('a'), dim('b'))); B = W.keep(atom('B', dim('b'), dim('d')))
    r = utils.convert_inputs_to_sparse_if_necessary(A, B)
    prove_same('left factor', r[0], A, f); prove_same('right factor', r[1], B, f); W.frame(f); c.cover('done')

def e_ops(which):
    def run():
        m, W, w, s, kids = setup(0, False)
        c = ctx(); f = 'ch.Ch.' + which; FN[0] = f
        p = W.node('p'); d = W.D(s, p)
        if which == 'compute_rop':
            R = W.keep(atom('R', dim('p'), dim('w')))
            r = s.compute_rop(p, rhs=R); want = None if d is None else Mat(d._mul(R), dim('s'), dim('w'))
        else:
            L = W.keep(left()); r = s.compute_lop(p, L); want = None if d is None else Mat(L._mul(d), L.rows, dim('p'))
        prove_same(which, r, want, f); W.frame(f); c.cover('absent' if want is None else 'present')
    return run

# ---- selections of a variable
def e_sliced():
    """the derivative with respect to a selection (of a selection ...) of something the node depends on directly"""
    m, utils, num = mods(); c = ctx()
    FN[0] = f = 'ch.Ch._compute_dr_wrt_sliced'
    W = World(m, ''); W_[0] = W
    s = mknode(W, m, (), {})
    del type(s)._compute_dr_wrt_sliced
    reads = []
    class Chain(W.permcls):
        """a selection: .a is what it selects from; only the fact that it lies further down the chain is known"""
        @property
        def a(self):
            if self in reads: raise Unsupported('the chain of selections is walked twice')
            reads.append(self)
            k = c.choose(3)
            n = 'c%d' % len(reads)
            if k == 0: o = W.node(n)                 # the end of the chain: something that is not a selection
            elif k == 1: o = s                       # the node itself
            else: o = W.node(n, Chain)
            chain.append(o); return o
    chain = []
    kind = c.choose(2)
    wrt = W.node('w', Chain) if kind else W.node('w')
    def T(p, w_):
        if p is wrt and any(w_ is o for o in chain): return W._get2(p, w_)
        raise Unsupported('Jacobian of %s with respect to %s is not known here' % (p.nm, w_.nm))
    def get2(p, q):
        k = ('T', p.nm, q.nm)
        if k not in W.tab: W.tab[k] = W.keep(atom('T[%s,%s]' % (p.nm, q.nm), dim(p.nm), dim(q.nm)))
        return W.tab[k]
    W._get2 = get2; W.T = T
    n = [0]
    def hook(cond, qual):
        if '_compute_dr_wrt_sliced' not in qual: return None
        def gen():
            # head 0: the target; head 1: an element reached by one or more steps, nothing found so far; head 2 is the same state as head 1
            while cond():
                n[0] += 1
                if n[0] > 2: c.cover('chain of any length'); raise PathEnd()
                yield None
                if len(reads) != n[0]: raise Unsupported('one step of the walk does not follow one selection')
        return gen()
    load.HOOKS['while'] = hook
    try: r = s._compute_dr_wrt_sliced(wrt)
    finally: load.HOOKS['while'] = None
    d = W.D(s, wrt)
    if d is not None: want = d; c.cover('direct')
    else:
        want = None
        for o in chain:
            if o is s: break
            do = W.D(s, o)
            if do is not None:
                t = get2(wrt, o).T
                want = Mat(do._mul(t), dim('s'), dim('w')); c.cover('through a selection'); break
        else:
            # the walk must have gone to the end of the chain
            if isinstance(wrt, Chain): c.prove('the whole chain of selections is examined', bool(chain) and not isinstance(chain[-1], Chain), f)
    prove_same('derivative with respect to a selection', r, want, f); W.frame(f)

def entries():
    A = ['numpy/scipy: dot, transpose, sum and storage conversions as in engine/matalg.py', 'compute_dr_wrt of every operation returns the local Jacobian in one of the storages dense, np.matrix, sparse, number or one-entry array if 1x1 (C01-C04), or None', 'inputs obey the same contracts (induction over the height of the expression, which is finite and acyclic)', 'sizes are at least 1; LinearOperators are excluded; machine arithmetic is treated as exact']
    FS = ['ch.Ch.dr_wrt', 'ch.Ch._superdot', 'ch.Ch.compute_rop', 'utils.convert_inputs_to_sparse_if_necessary']
    E = []
    for a in (0, 1, 2, 3):
        for rev in (False, True):
            E.append(('dr_wrt arity %d reverse %s' % (a, rev), e_dr(a, rev), ('absent', 'present') + (('make_dense', 'make_sparse') if a < 2 else ()), dict(props=(('C05', 'C06', 'C20', 'C08', 'C11') if a < 2 else ('C05', 'C06', 'C20')) if not rev else ('C06',), functions=FS, assumptions=A, bounded='exactly %d inputs, all aliasings' % a, weight=1 + 5 * a, max_time=200, max_paths=20000, tier='thorough' if a == 3 and rev else 'quick')))
        for w in ('lop', 'lmult_wrt'):
            E.append(('%s arity %d' % (w, a), e_left(a, w), ('absent', 'present'), dict(props=('C06',), functions=['ch.Ch.' + w, 'ch.Ch.compute_lop'] , assumptions=A, bounded='exactly %d inputs, all aliasings' % a, weight=1 + 5 * a, max_time=200, max_paths=20000)))
    for w in ('dr_wrt', 'dr_wrt(reverse_mode=True)', 'lop', 'lmult_wrt'):
        E.append(('%s any number of inputs' % w, e_generic(w), ('target', 'seen', 'new', 'after the loop', 'result'), dict(props=('C05', 'C06', 'C20') if w == 'dr_wrt' else ('C06',), functions=FS if 'dr_wrt' in w else ['ch.Ch.' + w, 'ch.Ch.compute_lop'], assumptions=A, weight=9, max_time=200, max_paths=20000)))
    for a in (0, 1): E.append(('dr_wrt after a failure, arity %d' % a, e_failed(a), ('failed', 'enough'), dict(props=('C08',), functions=FS[:1], assumptions=A, bounded='exactly %d inputs, all aliasings' % a)))
    E.append(('_superdot', e_superdot, ('absent', 'present'), dict(props=('C05', 'C06', 'C20'), functions=['ch.Ch._superdot'], assumptions=A)))
    E.append(('convert_inputs', e_convert, ('done',), dict(props=('C20',), functions=['utils.convert_inputs_to_sparse_if_necessary', 'utils.sparse_is_desireable'], assumptions=A)))
    for w in ('compute_rop', 'compute_lop'): E.append((w, e_ops(w), ('absent', 'present'), dict(props=('C05', 'C06'), functions=['ch.Ch.' + w], assumptions=A)))
    E.append(('sliced', e_sliced, ('direct', 'through a selection', 'chain of any length'), dict(props=('C05', 'C06'), functions=['ch.Ch._compute_dr_wrt_sliced'], assumptions=A + ['the Jacobian of a selection with respect to what it selects from is its selection matrix P (C02); the columns of J for the selected entries are J P^T'])))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
