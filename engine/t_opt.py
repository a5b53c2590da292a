"""C17, C18: what the optimizers do with the free variables, and the functions handed to scipy.

Contents of arrays are terms: Slice(v, lo, hi), Put(v, positions, w) and the composition of positions are numpy's indexing by
contract, so variables have any shape and size.  The objective is known by contract only: its value, derivatives and products
are functions of the current contents of the free variables (C05-C08).  For C18 every history of calls is covered: the state the
callbacks keep (attributes of function objects, closure cells) is generalised after each call and explored until nothing new
appears."""
import z3, core, load, stubs, types, copy
from core import *

Cont = z3.DeclareSort('Contents'); Pos = z3.DeclareSort('Positions'); Mat = z3.DeclareSort('Matrix')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SliceF = z3.Function('Slice', Cont, I, I, Cont)
PutF = z3.Function('Put', Cont, Pos, Cont, Cont)
TakeF = z3.Function('Take', Cont, Pos, Cont)
CompF = z3.Function('At', Pos, Pos, Pos)
DistF = z3.Function('Dist', Cont, Cont, R)
BadF = z3.Function('HasNaN', Cont, B)
ColsF = z3.Function('Columns', Mat, Pos, Mat)
RoundF = z3.Function('Rounded', Cont, Cont)            # what an array of another type keeps of numbers written into it
def unsup(*a): raise Unsupported(' '.join(map(str, a)))
def iv(x): return x.e if isinstance(x, SymInt) else z3.IntVal(x)
def valid(e):
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else not ctx().feasible(z3.Not(e))

class Sh(object):
    """a shape: the shape of a variable, or flat of some length"""
    __symbolic__ = True
    def __init__(self, name, size): self.name, self.n = name, size
    def __eq__(self, o):
        if not isinstance(o, Sh): return False
        if self.name is not None or o.name is not None: return True if self.name == o.name else (False if valid(self.n != o.n) else SymBool(z3.Bool(ctx().fresh('same shape'))))
        return SymBool(self.n == o.n)
    def __ne__(self, o):
        r = self.__eq__(o); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    __hash__ = None
    def __iter__(self): unsup('entries of a shape')
    def __symlen__(self): unsup('rank')
    def __getitem__(self, k):
        if self.name is None and k in (0, -1): return SymInt(self.n)
        unsup('entry of a shape')
class Box(object):
    def __init__(self, e, ro=False): self.e, self.ro = e, ro
class _Meta(type):
    def __instancecheck__(cls, o): return isinstance(o, Arr)
class ndarray(object, metaclass=_Meta): pass
class Idx(object):
    """positions"""
    __symbolic__ = True
    def __init__(self, e, n): self.e, self.n = e, n
    def __getitem__(self, o):
        if isinstance(o, Idx): return Idx(CompF(self.e, o.e), o.n)
        unsup('positions[%r]' % (o,))
    def ravel(self): return self
    def copy(self): return self
    def astype(self, *a): return self
    @property
    def size(self): return SymInt(self.n)
    def __symlen__(self): return SymInt(self.n)
class Rng(object):
    __symbolic__ = True
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def __add__(self, k): return Rng(self.lo + iv(k), self.hi + iv(k))
    __radd__ = __add__
    def astype(self, *a): return self
    @property
    def size(self): return SymInt(self.hi - self.lo)
    def __symlen__(self): return SymInt(self.hi - self.lo)
FULLS = {}
def full(c, n):
    if float(c) not in FULLS: FULLS[float(c)] = z3.Function('full_%s' % c, I, Cont)
    return FULLS[float(c)](n)
def kind_of(t): return 'float' if t in (stubs.Float64, float, 'float64', 'd') else unsup('conversion to %r' % (t,))
class Arr(object):
    __symbolic__ = True; __array_priority__ = 1.0
    def __init__(self, e, sh, box=None, own=True, kind='float'): self.box = box or Box(e); self.sh = sh; self.own = own; self.kind = kind
    @property
    def e(self): return self.box.e
    @property
    def shape(self): return self.sh
    @property
    def size(self): return SymInt(self.sh.n)
    ndim = property(lambda s: unsup('rank')); dtype = property(lambda s: stubs.Float64 if s.kind == 'float' else unsup('type of the array'))
    def __symlen__(self): return SymInt(self.sh.n) if self.sh.name is None else unsup('length')
    def copy(self, *a): return Arr(self.e, self.sh, kind=self.kind)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()
    def astype(self, t=None, *a, **k): return Arr(self.e, self.sh, kind=kind_of(t))
    def view(self, *a): return Arr(None, self.sh, self.box, self.own, self.kind)
    def flatten(self): return Arr(self.e, Sh(None, self.sh.n), kind=self.kind)
    def ravel(self, *a): return Arr(None, Sh(None, self.sh.n), self.box, self.own, self.kind)
    def squeeze(self): unsup('squeeze')
    T = property(lambda s: s if s.sh.name is None else unsup('transpose'))
    def reshape(self, *s):
        if len(s) == 1: s = s[0]
        if isinstance(s, Sh):
            if not valid(s.n == self.sh.n): unsup('reshape to another size')
            return Arr(None, s, self.box, self.own, self.kind)
        if s == -1 or s == (-1,): return self.ravel()
        unsup('reshape')
    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1): unsup('stride')
            if self.sh.name is not None: return self if k == slice(None) else unsup('slice of an array of unknown rank')
            lo = z3.IntVal(0) if k.start is None else iv(k.start); hi = self.sh.n if k.stop is None else iv(k.stop)
            return self.cut(lo, hi)
        if isinstance(k, Rng) and self.sh.name in (None, 'column'):
            r = self.cut(k.lo, k.hi)
            return r if self.sh.name is None else Arr(r.e, Sh('column', r.sh.n))
        if isinstance(k, Idx) and self.sh.name is None: return Arr(TakeF(self.e, k.e), Sh(None, k.n))
        if k is Ellipsis: return self
        unsup('index %r' % (k,))
    def cut(self, lo, hi):
        c = ctx(); lo, hi = z3.simplify(lo), z3.simplify(hi); n = self.sh.n
        if not valid(z3.And(lo >= 0, lo <= hi, hi <= n)): unsup('slice beyond the vector or negative')
        e = self.e
        if e.decl().eq(SliceF): o = e.arg(1); e = e.arg(0); lo, hi = z3.simplify(o + lo), z3.simplify(o + hi)
        if valid(z3.And(lo == 0, hi == n)) and e.eq(self.e): return Arr(None, Sh(None, n), self.box, self.own)
        r = SliceF(e, lo, hi); c.assume(z3.Implies(BadF(r), BadF(e)))
        return Arr(r, Sh(None, z3.simplify(hi - lo)))
    def __setitem__(self, k, v):
        if not self.own: unsup('write into an array that is not owned')
        if isinstance(v, Arr): w = v.e if v.kind == self.kind or self.kind == 'float' else RoundF(v.e); n = v.sh.n
        else: unsup('assignment of %r' % (v,))
        if isinstance(k, Idx):
            if not valid(n == k.n): unsup('broadcast assignment')
            self.box.e = PutF(self.box.e, k.e, w)
        elif k == slice(None) or k is Ellipsis:
            if not valid(n == self.sh.n): unsup('broadcast assignment')
            self.box.e = w
        else: unsup('assignment to %r' % (k,))
    def __sub__(self, o): return Diff(self, o)
    def __rsub__(self, o): return Diff(o, self)
    def __mul__(self, o):
        if isinstance(o, (int, float)) and o == 0: return Arr(full(0, self.sh.n), self.sh)
        if isinstance(o, (int, float)) and o == 1: return self.copy()
        return Arr(z3.Const(ctx().fresh('product'), Cont), self.sh)
    __rmul__ = __mul__
    def __add__(self, o):
        if isinstance(o, (int, float)):
            if self.e.decl().name() == 'full_0': return Arr(full(o, self.sh.n), self.sh)
            if o == 0: return self.copy()
        return Arr(z3.Const(ctx().fresh('sum'), Cont), self.sh)
    __radd__ = __add__
    def __eq__(self, o): return Cmp(self, o, False)
    def __ne__(self, o): return Cmp(self, o, True)
    __hash__ = None
    def __iter__(self): unsup('iteration')
    def __bool__(self): unsup('truth of an array')
    def any(self): unsup('any')
def con(x):
    """(term, size) of what may be compared"""
    if isinstance(x, Arr): return x.e
    if isinstance(x, Var): return x.r.e
    unsup('comparison with %r' % (x,))
def dist(a, b):
    c = ctx(); a, b = con(a), con(b)
    d = DistF(a, b) if str(a) <= str(b) else DistF(b, a)
    c.assume(z3.And(d >= 0, (d == 0) == (a == b)))
    return SymReal(d, z3.Or(BadF(a), BadF(b)))
def same_contents(a, b): return z3.And(con(a) == con(b), z3.Not(BadF(con(a))))
class Diff(object):
    def __init__(self, a, b): self.a, self.b = a, b
    def ravel(self): return self
    flatten = copy = __abs__ = __neg__ = ravel
    def __pow__(self, k): return self if k == 2 else unsup('power')
    def max(self, *a): return dist(self.a, self.b)
    sum = max
    def any(self):
        return SymBool(z3.Not(same_contents(self.a, self.b)))
    def __gt__(self, o): return Thr(self, o, True)
    def __ne__(self, o): return Cmp(self.a, self.b, True) if o == 0 else unsup('comparison')
    def __eq__(self, o): return Cmp(self.a, self.b, False) if o == 0 else unsup('comparison')
    __hash__ = None
    def dot(self, o): return dist(self.a, self.b) if o is self else unsup('dot')
class Thr(object):
    def __init__(self, d, t, gt): self.d, self.t = d, t
    def any(self): return dist(self.d.a, self.d.b) > self.t
class Cmp(object):
    def __init__(self, a, b, ne): self.a, self.b, self.ne = a, b, ne
    def all(self): return SymBool(same_contents(self.a, self.b)) if not self.ne else unsup('all of !=')
    def any(self): return SymBool(z3.Not(same_contents(self.a, self.b))) if self.ne else unsup('any of ==')
    def ravel(self): return self
def array_equal(a, b, **k):
    if k: unsup('array_equal')
    sa, sb = getattr(a, 'sh', None), getattr(b, 'sh', None)
    if sa is None or sb is None: unsup('array_equal')
    s = sa == sb
    if s is False: return False
    r = SymBool(same_contents(a, b))
    return r if s is True else (r & s)
def allclose(a, b, *x, **k):
    c = ctx(); f = z3.Bool(c.fresh('close')); c.assume(z3.Implies(same_contents(a, b), f)); return SymBool(f)

# ------------------------------------------------------------------ matrices: sums of products of atoms
class M(object):
    __symbolic__ = True; sparse = False
    def __init__(self, mono, sparse=False, cols=None, rows=None): self.mono, self.sparse, self.cols, self.rows = mono, sparse, cols, rows   # list of (coefficient, ((atom, transposed), ...))
    @property
    def T(self): return M([(k, tuple((a, not t) for a, t in reversed(p))) for k, p in self.mono], self.sparse, self.rows, self.cols)
    def transpose(self): return self.T
    def dot(self, o):
        if isinstance(o, Arr): o = M([(1, ((o.e, False),))])
        if not isinstance(o, M): unsup('product with %r' % (o,))
        return M([(k * l, p + q) for k, p in self.mono for l, q in o.mono], self.sparse and o.sparse)
    def __mul__(self, o):
        if isinstance(o, (int, float)): return M([(k * o, p) for k, p in self.mono], self.sparse, self.cols, self.rows)
        if self.sparse: return self.dot(o)
        unsup('elementwise product')
    def __rmul__(self, o): return self * o if isinstance(o, (int, float)) else unsup('product')
    __matmul__ = dot
    def __truediv__(self, o): return self * (1. / o)
    def __neg__(self): return self * -1
    def __add__(self, o): return M(self.mono + o.mono, self.sparse) if isinstance(o, M) else unsup('sum')
    def _same(self, *a, **k): return self
    ravel = copy = flatten = squeeze = tocsc = tocsr = tocoo = asformat = _same
    def todense(self): return M(self.mono, False, self.cols, self.rows)
    toarray = todense
    def reshape(self, *a): return self if a in ((-1,), ((-1,),)) else unsup('reshape of a derivative')
    shape = property(lambda s: (SymInt(s.rows) if s.rows is not None else unsup('rows'), SymInt(s.cols) if s.cols is not None else unsup('columns')))
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            if k[1] == slice(None): return self
            if isinstance(k[1], Idx) and len(self.mono) == 1 and len(self.mono[0][1]) == 1 and not self.mono[0][1][0][1]:
                c, ((a, t),) = self.mono[0]
                if a.decl().eq(ColsF): return M([(c, ((ColsF(a.arg(0), CompF(a.arg(1), k[1].e)), False),))], self.sparse, k[1].n, self.rows)
                return M([(c, ((ColsF(a, k[1].e), False),))], self.sparse, k[1].n, self.rows)
        unsup('index of a derivative')
    def norm(self):
        return [(k, p) for k, p in self.mono if k]
    def __repr__(self): return 'M(%s)' % (self.mono,)
def hcat(xs):
    """columns side by side, as one atom"""
    xs = list(xs); ts = []
    for x in xs:
        if not isinstance(x, M): unsup('hstack of %r' % (x,))
        if len(x.mono) != 1: unsup('hstack')
        ts.append(x)
    if len(ts) == 1: return ts[0]
    atoms = []; co = ts[0].mono[0][0]
    for x in ts:
        (k, p), = x.mono
        if k != co or len(p) != 1 or p[0][1]: unsup('hstack')
        atoms.append(p[0][0])
    f = z3.Function('beside%d' % len(atoms), *([Mat] * len(atoms) + [Mat]))
    return M([(co, ((f(*atoms), False),))], any(x.sparse for x in ts))
def equal_mats(a, b):
    """condition for two sums of products to be the same term"""
    if not isinstance(a, M) or not isinstance(b, M): return z3.BoolVal(False)
    a, b = a.norm(), b.norm()
    if len(a) != len(b): return z3.BoolVal(False)
    import itertools
    alts = []
    for perm in itertools.permutations(b):
        cs = []
        for (k, p), (l, q) in zip(a, perm):
            if k != l or len(p) != len(q) or any(s != t for (_, s), (_, t) in zip(p, q)) or any(x.sort() != y.sort() for (x, _), (y, _) in zip(p, q)): cs.append(z3.BoolVal(False))
            else: cs += [x == y for (x, _), (y, _) in zip(p, q)]
        alts.append(z3.And(cs))
    return z3.Or(alts)

# ------------------------------------------------------------------ variables, selections, objective
class World(object):
    def __init__(self): self.vars = []; self.sels = []; self.writes = []; self.evals = 0
class Var(object):
    """a variable (C12: v[:] = w sets all entries; assigning x invalidates what depends on it, C07)"""
    __array_priority__ = 2.0
    short_name = 'v'
    def __init__(self, w, name, number=False, kind='float'):
        d = self.__dict__; d['kind'] = kind; d['cached'] = None; d['itr'] = None; n = z3.Int('size_' + name); ctx().assume(n >= 1)
        d['w'] = w; d['name'] = name; d['n'] = n; d['sh'] = Sh('shape_' + name, n); d['init'] = z3.Const('init_' + name, Cont); d['number'] = number; d['bad_write'] = None
        if number: ctx().assume(n == 1)
        d['box'] = Box(d['init']); w.vars.append(self)
    @property
    def x(self): return Arr(None, self.sh, self.box, own=False, kind=self.kind) if not self.number and self.kind != 'list' else NumVal(self)
    @property
    def r(self):
        self.w.evals += 1
        if self.cached is None or self.itr is None: self.__dict__['cached'] = self.box
        return Arr(None, self.sh, self.cached, own=False)
    shape = property(lambda s: s.sh); size = property(lambda s: SymInt(s.n)); dterms = ()
    def __sub__(self, o): return Diff(self, o)
    def __rsub__(self, o): return Diff(o, self)
    def ravel(self): unsup('ravel of a variable')
    def __setitem__(self, k, v):
        if k != slice(None) and k is not Ellipsis: unsup('partial assignment')
        self.__setattr__('x', v)
    def __setattr__(self, nm, v, itr=None):
        if nm != 'x': unsup('attribute %s' % nm)
        if isinstance(v, (Var,)): v = v.r
        if not isinstance(v, Arr): unsup('assignment of %r' % (v,))
        d = self.__dict__; d['box'] = Box(v.e if v.kind == 'float' else RoundF(v.e)); d['kind'] = 'float'; self.w.writes.append(self)
        if v.sh.name != self.sh.name and not (self.number and v.sh.name is None): d['bad_write'] = v.sh
        if itr is not None and d['itr'] == itr: return            # clear_cache(itr) passes what carries the tag already
        d['cached'] = None; d['itr'] = itr
        for s in self.w.sels:
            if s.base is self:
                if itr is not None and s.itr == itr: continue     # clear_cache(itr) passes what carries the tag already
                s.__dict__['cached'] = None; s.__dict__['itr'] = itr
    def __repr__(self): return self.name
class NumVal(object):
    """a plain number or a list held by a variable"""
    def __init__(self, v): self.v = v
    def arr(self): return Arr(None, self.v.sh, self.v.box, own=False)
class Sel(object):
    """a selection of entries of a variable or of another selection"""
    __array_priority__ = 2.0
    short_name = 's'; dterms = ()
    def __init__(self, w, a, name):
        d = self.__dict__; n = z3.Int('count_' + name); ctx().assume(n >= 1)
        d['w'] = w; d['a'] = a; d['n'] = n; d['idxs'] = Idx(z3.Const('positions_' + name, Pos), n); d['name'] = name; d['cached'] = None; d['itr'] = None; d['sh'] = Sh('shape_' + name, n)
        d['base'] = a if isinstance(a, Var) else a.base; w.sels.append(self)
    def positions(self): return self.idxs.e if isinstance(self.a, Var) else CompF(self.a.positions(), self.idxs.e)
    def current(self): return TakeF(self.base.box.e, self.positions())
    @property
    def r(self):
        d = self.__dict__; self.w.evals += 1
        if self.cached is None: d['cached'] = self.current()
        if isinstance(self.a, Sel): self.a.r
        return Arr(self.cached, self.sh, own=False)
    shape = property(lambda s: s.sh); size = property(lambda s: SymInt(s.n))
    def __setattr__(self, nm, v, itr=None): unsup('attribute of a selection')
    def __setitem__(self, k, v):
        if k != slice(None) and k is not Ellipsis: unsup('partial assignment')
        if not isinstance(v, Arr): unsup('assignment')
        self.base.__setattr__('x', Arr(PutF(self.base.box.e, self.positions(), v.e), self.base.sh))
    def __repr__(self): return self.name
class Objective(object):
    """value, Jacobian and products as functions of the current contents of the variables"""
    dterms = ()
    def __init__(self, w, name, size=None, sparse=None):
        self.tree_iterator = lambda: [self]; self.w, self.name = w, name; self.n = z3.Int('size_' + name); ctx().assume(self.n >= 1)
        if size: ctx().assume(self.n == size)
        self.sparse = sparse; self._cache = {'r': None, 'drs': {}}; self.short_name = name
    size = property(lambda s: SymInt(s.n))
    def state(self): return [preferred(v) for v in self.w.vars]
    def valterm(self, sq=False): s = self.state(); return z3.Function('value_%s%s' % (self.name, '_squares' if sq else ''), *([Cont] * len(s) + [R]))(*s)
    @property
    def r(self): return RVal(self)
    def jac(self, wrt):
        s = self.state(); b = wrt if isinstance(wrt, Var) else wrt.base
        a = z3.Function('Jacobian_%s_by_%s' % (self.name, b.name), *([Cont] * len(s) + [Mat]))(*s)
        return a if isinstance(wrt, Var) else ColsF(a, wrt.positions())
    def dr_wrt(self, wrt, *a, **k):
        if not isinstance(wrt, (Var, Sel)): unsup('derivative by %r' % (wrt,))
        return DM(self, [(1, ((self.jac(wrt), False),))], self.sparse(wrt) if self.sparse else False, wrt.n, self.n)
    def lop(self, wrt, lhs, *a, **k):
        if not isinstance(lhs, Lit): unsup('lop by %r' % (lhs,))
        return M([(lhs.v, ((self.jac(wrt), False),))], False, wrt.n)
    def ravel(self): return self
def preferred(v):
    """the contents of a variable; named after the vector asked for where they are equal"""
    c = ctx(); at = c.user.get('at', {}).get(v)
    if at is None or at.eq(v.box.e): return v.box.e
    k = ('pref', v.name, v.box.e.get_id(), at.get_id(), len(c.pc))
    if k not in c.user: c.user[k] = valid(v.box.e == at)
    return at if c.user[k] else v.box.e
class DM(M):
    """a Jacobian as handed out by the objective: some sparse formats do not support column selection"""
    def __init__(self, o, *a): M.__init__(self, *a); self.fancy = not (self.sparse and ctx().choose(2))
    def __getitem__(self, k):
        if not self.fancy: raise TypeError('coo_matrix is not subscriptable')
        return M.__getitem__(self, k)
    def tocsc(self, *a, **k): return M(self.mono, True, self.cols, self.rows)
    tocsr = tocsc
class RVal(object):
    def __init__(self, o, sq=False): self.o, self.sq = o, sq
    def ravel(self): return self
    flatten = copy = squeeze = ravel
    size = property(lambda s: SymInt(s.o.n))
    def __getitem__(self, k):
        if k in (0, -1) and valid(self.o.n == 1): return SymReal(self.o.valterm(self.sq))
        unsup('entry of the residuals')
    def item(self): return self[0]
    def __symfloat__(self): return self[0]
    def __pow__(self, k): return RVal(self.o, True) if k == 2 and not self.sq else unsup('power')
    def sum(self): return SymReal(SOS(self.o).valterm()) if self.sq else unsup('sum')
    def dot(self, o): return RVal(self.o, True).sum() if isinstance(o, RVal) and o.o is self.o and not self.sq else unsup('dot')
class SOS(Objective):
    def __init__(self, o):
        if not isinstance(o, Objective): unsup('sum of squares of %r' % (o,))
        Objective.__init__(self, o.w, 'squares_of_' + o.name, 1)
class Lit(object):
    def __init__(self, v): self.v = v

def noted(*a): pass
_M = []
def mods():
    if not _M:
        st = stubs.base_stubs(); np = st['numpy']; sp = st['scipy.sparse']
        np.ndarray = ndarray; np.abs = np.absolute = np.fabs = lambda d: abs(d) if isinstance(d, Diff) else unsup('abs')
        np.max = np.amax = lambda d, *a, **k: d.max() if isinstance(d, Diff) else unsup('max')
        np.sum = lambda d, *a, **k: d.sum() if isinstance(d, (Diff, RVal)) else unsup('sum')
        np.any = lambda d: d.any(); np.all = lambda d: d.all() if isinstance(d, Cmp) else unsup('all'); np.array_equal = array_equal; np.allclose = allclose
        np.linalg.norm = lambda d, *a: dist(d.a, d.b) if isinstance(d, Diff) else unsup('norm')
        def array(x, *a, **k):
            t = a[0] if a else k.get('dtype')
            if isinstance(x, NumVal): x = x.arr()
            if isinstance(x, Var): x = x.r
            if isinstance(x, (Arr,)):
                if x.sh.name is not None and k.get('order') != 'C': noted('order of the copy')
                return x.copy() if t is None else x.astype(t)
            if isinstance(x, (M, RVal, Diff)): return x
            if isinstance(x, (int, float)): return Lit(x)
            if isinstance(x, list) and len(x) == 1 and isinstance(x[0], list) and len(x[0]) == 1 and isinstance(x[0][0], (int, float)): return Lit(x[0][0])
            if isinstance(x, list) and len(x) == 1 and isinstance(x[0], (int, float)): return Lit(x[0])
            if isinstance(x, list) and all(isinstance(v, int) for v in x): return x
            unsup('array of %r' % (x,))
        np.array = array; np.asarray = lambda x, *a, **k: x if isinstance(x, Arr) and (x.kind == 'float' or not a and not k) else array(x, *a, **k)
        np.unique = lambda x: sorted(set(x)) if isinstance(x, list) else unsup('unique')
        np.copy = lambda x: x.copy(); np.ravel = lambda x: x.ravel(); np.reshape = lambda x, s: x.reshape(s)
        np.atleast_2d = lambda x: x if isinstance(x, M) else unsup('atleast_2d'); np.atleast_1d = lambda x: x.arr() if isinstance(x, NumVal) else x
        np.shape = lambda x: x.v.sh if isinstance(x, NumVal) else x.shape if isinstance(x, (Arr, Var, Sel)) else unsup('shape')
        np.isscalar = lambda x: (x.v.number) if isinstance(x, NumVal) else False
        np.asmatrix = np.squeeze = lambda x: x if isinstance(x, M) else unsup('matrix'); np.matrix = np.asmatrix
        def arange(*a, **k):
            lo, hi = (z3.IntVal(0), iv(a[0])) if len(a) == 1 else (iv(a[0]), iv(a[1]))
            return Rng(lo, hi) if len(a) < 3 else unsup('arange')
        np.arange = arange
        def concatenate(xs, *a, **k):
            xs = list(xs)
            if all(isinstance(x, Arr) and x.sh.name is None for x in xs):
                c = ctx(); e = z3.Function('joined%d' % len(xs), *([Cont] * len(xs) + [Cont]))(*[x.e for x in xs]); off = z3.IntVal(0)
                for x in xs:
                    c.assume(SliceF(e, z3.simplify(off), z3.simplify(off + x.sh.n)) == x.e); off = off + x.sh.n
                return Arr(e, Sh(None, z3.simplify(off))) if len(xs) > 1 else xs[0].copy()
            if all(isinstance(x, M) for x in xs): return hcat(xs)
            unsup('concatenate')
        np.concatenate = concatenate; np.hstack = concatenate
        sp.hstack = lambda xs, **k: hcat(xs); sp.issparse = lambda x: isinstance(x, M) and x.sparse
        sp.csc_matrix = sp.csr_matrix = lambda x: M(x.mono, True, x.cols, x.rows) if isinstance(x, M) else unsup('sparse')
        class Fl(object): pass
        opt, oi, ch = load.fresh_chumpy(st, ('chumpy.optimization', 'chumpy.optimization_internal', 'chumpy.ch'))
        import sys as _s
        class Chx(object):
            """the module chumpy.ch as the optimizers see it: by contract"""
            Select = Sel; SumOfSquares = SOS
            pif = staticmethod(lambda *a: None)
            @staticmethod
            def concatenate(xs, *a, **k): return joined(list(xs))
            def __getattr__(self, k): unsup('ch.%s' % k)
        m = dict(opt=opt, oi=oi, ch=ch, np=np, so=st['scipy.optimize'], Ch=ch.Ch)
        ch.SumOfSquares = SOS; ch.concatenate = Chx.concatenate
        opt.ch = Chx(); oi.ch = Chx(); oi.pif = lambda *a: None
        oi.timer = lambda: (lambda: 0.)
        _M.append(m)
    return _M[0]
def joined(xs):
    if not all(isinstance(x, Objective) for x in xs): unsup('concatenate')
    w = xs[0].w
    o = Objective(w, 'joined(%s)' % ','.join(sorted(x.name for x in xs))); e = z3.IntVal(0)
    for x in xs: e = e + x.n
    ctx().assume(o.n == e); return o

# ================================================================== C17
def layout(which, kinds=False):
    """free variables: variables, numbers, selections, selections of selections, of shared variables"""
    w = World()
    if which == 'plain': a, b, n = Var(w, 'a'), Var(w, 'b'), Var(w, 'n', number=True); l = Var(w, 'l', kind='list') if kinds else None; fv = [a, n, b] + ([l] if kinds else [])
    elif which == 'pair': a, b = Var(w, 'a'), Var(w, 'b'); fv = [b, a]
    elif which == 'selections': a, b = Var(w, 'a'), Var(w, 'b'); fv = [Sel(w, a, 's'), b, Sel(w, a, 't')]
    elif which == 'nested':
        a, b = Var(w, 'a'), Var(w, 'b'); s = Sel(w, a, 's'); t = Sel(w, s, 't'); u = Sel(w, t, 'u'); v = Sel(w, Sel(w, b, 'q'), 'v'); fv = [u, Sel(w, a, 'p'), v]
    if kinds:
        for v in w.vars:
            if not v.number and v.kind != 'list': v.__dict__['kind'] = ('float', 'other', 'list')[ctx().choose(3)]
    other = Var(w, 'untouched')
    return w, fv, other
def offsets(fv):
    o = [z3.IntVal(0)]
    for f in fv: o.append(z3.simplify(o[-1] + f.n))
    return o
class SelfStub(object):
    """the stacked objective: x is the parameter vector"""
class XVal(object):
    def __init__(self, arr): self.r = arr
def expected(fv, x, before):
    """contents of every variable when the segments of x have been stored, in order"""
    o = offsets(fv); out = dict(before)
    for k, f in enumerate(fv):
        seg = SliceF(x, o[k], o[k + 1])
        if isinstance(f, Var): out[f] = seg
        else: out[f.base] = PutF(out[f.base], f.positions(), seg)
    return out
def e_on_changed(which):
    def run():
        c = ctx(); m = mods(); w, fv, other = layout(which, True); F = 'optimization_internal.ChInputsStacked.on_changed'
        N = offsets(fv)[-1]
        cls = m['oi'].ChInputsStacked; s = SelfStub(); s.free_variables = fv
        state = {v: v.box.e for v in w.vars}
        for call in range(2):
            x = z3.Const('x%d' % call, Cont); s.x = XVal(Arr(x, Sh('column' if c.choose(2) else None, N), own=False))
            full_ = []
            # expressions of interest were evaluated before
            if c.choose(2):
                for q in w.sels + w.vars: q.r
            w.writes[:] = []
            cls.on_changed(s, set(['x']) if c.choose(2) else 'x')
            want = expected(fv, x, state)
            for v in w.vars:
                got = v.box.e; ok = got == want[v]
                if len(fv) == 1 or z3.is_expr(ok): c.prove('every variable holds its segment of the parameter vector, other entries are kept', ok, F)
                c.prove('a variable keeps its shape', v.bad_write is None, F)
            c.prove('variables that are not free are not assigned', other not in w.writes, F)
            for q in w.sels: c.prove('selections show the new values', q.cached is None or valid(q.cached == q.current()), F)
            for q in w.vars: c.prove('variables show the new values', q.cached is None or valid(q.cached.e == q.box.e), F)
            c.prove('the parameter vector is kept', s.x.r.e.eq(x), F)
            state = {v: v.box.e for v in w.vars}
        w.writes[:] = []
        cls.on_changed(s, set(['obj'])); c.prove('nothing is assigned when the parameter vector did not change', not w.writes, F)
        c.cover('done')
    return run
def e_jacobian(which):
    def run():
        c = ctx(); m = mods(); w, fv, other = layout(which); F = 'optimization_internal.ChInputsStacked.dr_wrt'
        cls = m['oi'].ChInputsStacked; s = SelfStub(); s.free_variables = fv; s.x = XVal(Arr(z3.Const('x', Cont), Sh(None, offsets(fv)[-1]), own=False))
        flags = {}
        def sparse(wrt):
            if id(wrt) not in flags: flags[id(wrt)] = bool(c.choose(2))
            return flags[id(wrt)]
        s.obj = Objective(w, 'obj', sparse=sparse); s._make_dense = False; s._make_sparse = False; s.profiler = None
        k = c.choose(3)
        if k == 1: s._make_dense = True
        if k == 2: s._make_sparse = True
        J = cls.dr_wrt(s, s.x)
        want = hcat([M([(1, ((s.obj.jac(f), False),))]) for f in fv])
        c.prove('the Jacobian has the columns of each free variable (selection), in order', equal_mats(J, want), F)
        if k == 1: c.prove('dense when asked for', not J.sparse, F)
        c.prove('nothing is assigned', not w.writes, F)
        c.prove('no derivative with respect to anything but the parameter vector', cls.dr_wrt(s, XVal(s.x.r)) is None, F)
        J2 = cls.J.fget(type('S', (), dict(dr_wrt=lambda self, x, profiler=None: cls.dr_wrt(s, s.x), x=s.x, profiler=None))())
        c.prove('J is the same Jacobian', equal_mats(J2, want), 'optimization_internal.ChInputsStacked.J')
        c.cover('done')
    return run
def e_setup(which):
    def run():
        c = ctx(); m = mods(); w, fv, other = layout(which); F = 'optimization_internal.setup_objective'
        made = []
        class CIS(object):
            def __init__(self, **k): made.append(k)
        old = m['oi'].ChInputsStacked; m['oi'].ChInputsStacked = CIS
        try:
            o1, o2 = Objective(w, 'o1'), Objective(w, 'o2')
            k = c.choose(4)
            obj = [o1, [o1, o2], (o1, o2), dict(p=o1, q=o2)][k]
            m['oi'].setup_objective(obj, list(fv), disp=False)
        finally: m['oi'].ChInputsStacked = old
        if len(made) != 1 or not isinstance(made[0].get('x'), Arr): unsup('stacked objective')
        x = made[0]['x']; o = offsets(fv)
        c.prove('the parameter vector has one entry per free entry', x.sh.n == o[-1], F)
        for k_, f in enumerate(fv):
            c.prove('the parameter vector starts with the current values', SliceF(x.e, o[k_], o[k_ + 1]) == (f.box.e if isinstance(f, Var) else f.current()), F)
        c.prove('the same free variables in the same order', list(made[0]['free_variables']) == list(fv), F)
        ob = made[0]['obj']; want = 'o1' if k == 0 else 'joined(o1,o2)'
        c.prove('the objective is the given one', isinstance(ob, Objective) and ob.name == want, F)
        c.prove('nothing is assigned', not w.writes, F)
        c.cover('done')
    return run
def e_duplicates():
    c = ctx(); m = mods(); w = World(); a = Var(w, 'a'); b = Var(w, 'b')
    try: m['oi'].setup_objective(Objective(w, 'o1'), [a, b, a], disp=False)
    except Exception: c.prove('a variable given twice is refused', True, 'optimization_internal.setup_objective'); c.cover('done'); return
    c.prove('a variable given twice is refused', False, 'optimization_internal.setup_objective'); c.cover('done')

# ================================================================== C18
class Stop18(BaseException): pass
def reach(roots):
    """function objects and cells reachable from the callbacks"""
    fns, cells, seen = {}, {}, set()
    def walk(path, f):
        if not isinstance(f, types.FunctionType) or id(f) in seen: return
        seen.add(id(f)); fns[path] = f
        for nm, cell in zip(f.__code__.co_freevars, f.__closure__ or ()):
            try: v = cell.cell_contents
            except ValueError: v = None
            if isinstance(v, types.FunctionType): walk(path + '.' + nm, v)
            elif id(cell) not in seen: seen.add(id(cell)); cells[path + '/' + nm] = cell
    for k in sorted(roots): walk(k, roots[k])
    return fns, cells
class Ser(object):
    """a picture of the state with the parameter vectors replaced by numbered ones"""
    def __init__(self, w): self.w, self.pts, self.fixed = w, {}, {}
    def term(self, e):
        k = e.get_id()
        if z3.is_const(e) and e.sort() == Cont and str(e).startswith('point'):
            if str(e) not in self.pts: self.pts[str(e)] = len(self.pts)
            return 'P%d' % self.pts[str(e)]
        if z3.is_const(e) or z3.is_int_value(e) or z3.is_rational_value(e): return str(e)
        return '%s(%s)' % (e.decl().name(), ','.join(self.term(x) for x in e.children()))
    def val(self, v):
        if isinstance(v, Arr): return ('arr', self.term(z3.simplify(v.e)), v.sh.name, str(z3.simplify(v.sh.n)), v.own)
        if isinstance(v, M): return ('mat', v.sparse, tuple((k, tuple((self.term(z3.simplify(a)), t) for a, t in p)) for k, p in v.mono))
        if isinstance(v, SymReal): return ('real', self.term(z3.simplify(v.e)))
        if isinstance(v, (list, tuple)): return (type(v).__name__,) + tuple(self.val(x) for x in v)
        if isinstance(v, dict): return ('dict',) + tuple((k, self.val(x)) for k, x in sorted(v.items()))
        if v is None or isinstance(v, (int, float, str, bool)): return ('c', repr(v))
        if isinstance(v, (Var, Sel, Objective)): return ('o', v.name)
        if isinstance(v, types.FunctionType) or isinstance(v, type) or callable(v): return ('f', id(v))
        unsup('state %r' % (v,))
def subst_val(v, sub, over=None):
    """over: the solver has since overwritten the vectors it passed with this one"""
    if over is not None:
        if isinstance(v, Arr): return Arr(over, Sh(v.sh.name, v.sh.n), own=False) if not v.own and z3.is_const(v.e) and str(v.e).startswith('point') else subst_val(v, sub)
        if isinstance(v, (list, tuple)): return type(v)(subst_val(x, sub, over) for x in v)
        if isinstance(v, dict): return {k: subst_val(x, sub, over) for k, x in v.items()}
    def t(e): return z3.substitute(e, *sub) if sub else e
    if isinstance(v, Arr): return Arr(t(v.e), Sh(v.sh.name, v.sh.n), own=v.own)
    if isinstance(v, M): return M([(k, tuple((t(a), tr) for a, tr in p)) for k, p in v.mono], v.sparse, v.cols, v.rows)
    if isinstance(v, SymReal): return SymReal(t(v.e), None if v.nan is None else t(v.nan))
    if isinstance(v, list): return [subst_val(x, sub) for x in v]
    if isinstance(v, tuple): return tuple(subst_val(x, sub) for x in v)
    if isinstance(v, dict): return {k: subst_val(x, sub) for k, x in v.items()}
    return v
def snapshot(w, fns, cells):
    s = Ser(w); out = []; raw = {}
    for p, f in sorted(fns.items()):
        for k, v in sorted(f.__dict__.items()): out.append((p, k, s.val(v))); raw['f', p, k] = v
    for p, c_ in sorted(cells.items()):
        try: v = c_.cell_contents
        except ValueError: continue
        sv = s.val(v)
        if sv[0] in ('o', 'f') : continue
        out.append((p, '', sv)); raw['c', p] = v
    for v in w.vars: e = z3.simplify(preferred(v)); out.append(('var', v.name, s.term(e))); raw['v', v.name] = e
    return tuple(out), raw, s.pts
SEEN = {}
def e_scipy(kind, which, method):
    """kind: scalar or vector objective; each state reached by some history is explored from, with every call"""
    key = (kind, which, method)
    SEEN.pop(key, None)
    def explore_state(raw):
        """one minimize() whose solver is in the given state; returns the snapshots of successor states"""
        c = ctx(); m = mods(); w, fv, other = layout(which); F = 'optimization.minimize'
        objs = [Objective(w, 'o1'), Objective(w, 'o2')]
        if kind == 'scalar': c.assume(objs[0].n == 1); fun = objs[0]; scalar = objs[0]; vec = None
        elif kind == 'vector': c.assume(objs[0].n > 1); fun = objs[0]; vec = objs[0]; scalar = SOS(vec)
        else:
            fun = list(objs) if kind == 'list' else dict(a=objs[0], b=objs[1]); vec = joined(list(objs)); scalar = SOS(vec)
        N = offsets(fv)[-1]; succ = []
        def check_vars(x, what, F):
            st = {v: v.box.e for v in w.vars}
            for v in w.vars:
                if not any(f is v for f in fv): continue
            o = offsets(fv)
            for k, f in enumerate(fv):
                seg = SliceF(x.e, o[k], o[k + 1])
                if isinstance(f, Var): c.prove(what, f.box.e == seg, F)
                else:
                    # the entries selected hold the segment
                    c.prove(what, f.base.box.e == PutF(f.base.box.e, f.positions(), seg), F)
        def solver(fun=None, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, callback=None, **kw):
            roots = {k: v for k, v in dict(fun=fun, jac=jac, hess=hess, hessp=hessp).items() if isinstance(v, types.FunctionType)}
            if 'fun' not in roots or 'jac' not in roots: unsup('callbacks')
            fns, cells = reach(roots)
            if raw:
                # the solver may keep one vector and update it in place between calls: what was kept without a copy is then the new point
                over = z3.Const('point', Cont) if c.choose(2) else None
                for k, v in raw.items():
                    if k[0] == 'f':
                        if k[1] not in fns: unsup('state of %s' % k[1])
                        fns[k[1]].__dict__[k[2]] = subst_val(v, [], over)
                    elif k[0] == 'c': cells[k[1]].cell_contents = subst_val(v, [], over)
                    else:
                        for q in w.vars:
                            if q.name == k[1]: q.__dict__['box'] = Box(v)
            calls = sorted(roots) + ['return']
            what = calls[c.choose(len(calls))]
            x = Arr(z3.Const('point', Cont), Sh(None, N), own=False)
            o = offsets(fv); segs = [SliceF(x.e, o[k], o[k + 1]) for k in range(len(fv))]
            c.assume(BadF(x.e) == z3.Or([BadF(s) for s in segs]))
            for f, s in zip(fv, segs):
                if isinstance(f, Sel):
                    # entries stored through a selection of distinct positions are the ones read through it
                    c.assume(TakeF(PutF(f.base.box.e, f.positions(), s), f.positions()) == s)
                    c.assume(z3.Implies(f.current() == s, PutF(f.base.box.e, f.positions(), s) == f.base.box.e))
            if what == 'return':
                r = type('Result', (), {})(); r.x = x; solver.x = x; solver.before = {v: v.box.e for v in w.vars}; return r
            # the state of the variables at x, for the value asked for
            now = {v: v.box.e for v in w.vars}
            at = {}
            for v in w.vars: at[v] = now[v]
            for f, s in zip(fv, segs):
                if isinstance(f, Var): at[f] = s
                else: at[f.base] = PutF(at[f.base], f.positions(), s)
            c.user['at'] = at
            class At(object):
                def __enter__(s_):
                    s_.keep = {v: v.box for v in w.vars}
                    for v in w.vars: v.__dict__['box'] = Box(at[v])
                def __exit__(s_, *a):
                    for v in w.vars: v.__dict__['box'] = s_.keep[v]
            p = Arr(z3.Const('direction', Cont), Sh(None, N), own=False)
            def note(): c.cover('call ' + what)
            if what == 'fun':
                got = fun(x, *args); note()
                with At(): want = scalar.valterm()
                if not isinstance(got, SymReal): unsup('objective %r' % (got,))
                c.prove('the objective is the one at the vector asked for', got.e == want, F + '.residuals')
            elif what == 'jac':
                got = jac(x, *args); note()
                with At(): want = hcat([M([(1, ((scalar.jac(f), False),))]) for f in fv])
                c.prove('the gradient is the one at the vector asked for', equal_mats(got, want), F + '.scalar_jacfunc')
            else:
                if vec is None: unsup('Hessian of a scalar objective')
                with At(): J = hcat([M([(1, ((vec.jac(f), False),))]) for f in fv])
                H = J.T.dot(J) * 2.
                if what == 'hess':
                    got = hess(x, *args); note()
                    c.prove('the Hessian is twice the Gauss-Newton matrix at the vector asked for', equal_mats(got, H), F + '.hess')
                else:
                    got = hessp(x, p, *args); note()
                    c.prove('the Hessian product is that of twice the Gauss-Newton matrix at the vector asked for', equal_mats(got, H.dot(p)), F + '.hessp')
                    c.prove('the direction is kept', p.e.eq(z3.Const('direction', Cont)), F + '.hessp')
            c.prove('the vector asked for is kept', x.e.eq(z3.Const('point', Cont)), F)
            c.prove('variables that are not free are not assigned', other not in w.writes, F)
            fns2, cells2 = reach(roots)
            c.user['succ'] = snapshot(w, fns2, cells2)
            raise Stop18()
        m['so'].minimize = solver
        try: out = m['opt'].minimize(fun, list(fv), method=method)
        except Stop18: return c.user['succ']
        if not hasattr(solver, 'x'): unsup('the solver was not called')
        want = expected(fv, solver.x.e, solver.before)
        for v in w.vars: c.prove('on return the free variables hold the solver\'s result', v.box.e == want[v], F)
        c.prove('variables that are not free are not assigned', other not in w.writes, F)
        c.cover('return')
        return None
    # the fixpoint is computed by nested explorations (one per state); their obligations are handed to the outer one
    def run():
        c0 = ctx(); work = [(None, None)]; seen = {None}; n = 0; keep = core.CTX
        while work:
            sig, raw = work.pop(); n += 1
            if n > 60: unsup('more than 60 states of the callbacks')
            found = []
            res = core.explore('state', lambda: found.append(explore_state(raw)), max_paths=400, max_time=60.)
            core.CTX = keep
            c0.obl.extend(res.obligations); c0.covered |= res.covered
            if any(o.status == 'refuted' for o in res.obligations): return      # a failed obligation: no need for the remaining states
            if res.unsupported: unsup(res.unsupported[0])
            for f in found:
                if f is None: continue
                s, rw, pts = f
                if s in seen: continue
                seen.add(s)
                # generalise: the parameter vectors seen so far become arbitrary ones
                sub = [(z3.Const(nm, Cont), z3.Const('point_%d' % k, Cont)) for nm, k in pts.items()]
                gen = {}
                for k, v in rw.items():
                    gen[k] = z3.substitute(v, *sub) if z3.is_expr(v) and sub else (v if z3.is_expr(v) else subst_val(v, sub))
                work.append((s, gen))
        c0.notes.append('%d states of the callbacks' % n)
        c0.cover('all histories')
    return run

AV = ['numpy indexing by contract: Slice, indexed assignment to distinct positions, positions of a selection of a selection', 'a number is a one-entry array', 'Ch.__setattr__(x, v, tag) invalidates what depends on the variable unless it carries the tag already (clear_cache, proved for C07)']
AO = AV[:2] + ['the objective by contract: value, Jacobian and lop are functions of the current contents of its variables (C05-C08), SumOfSquares by its contract (C03)', 'assigning through a variable or selection by its contract (C12)', 'the solver does not modify the vectors it was handed (its own, those it passed, it may)', 'a free selection of entries behaves as a variable of its own (C12); selections do not overlap', 'the objective depends on every free variable']
def entries():
    E = []
    for k in ('plain', 'selections', 'nested'):
        E.append(('free variables: ' + k, e_on_changed(k), ('done',), dict(props=('C17',), functions=['optimization_internal.ChInputsStacked.on_changed'], assumptions=AV, bounded='three free variables (any shapes and sizes), two changes in a row')))
        E.append(('Jacobian: ' + k, e_jacobian(k), ('done',), dict(props=('C17',), functions=['optimization_internal.ChInputsStacked.dr_wrt', 'optimization_internal.ChInputsStacked.J', 'optimization_internal.hstack'], assumptions=AO[:3], bounded='three free variables (any shapes and sizes)')))
        E.append(('setup: ' + k, e_setup(k), ('done',), dict(props=('C17',), functions=['optimization_internal.setup_objective'], assumptions=AO[:3], bounded='three free variables (any shapes and sizes)')))
    E.append(('setup: duplicates', e_duplicates, ('done',), dict(props=('C17',), functions=['optimization_internal.setup_objective'], assumptions=[])))
    for kind in ('scalar', 'vector', 'list', 'dict'):
        for lay in ('plain', 'pair'):
            for meth in ('trust-ncg', 'Newton-CG', 'SLSQP') if kind == 'vector' else ('BFGS',):
                if (lay == 'plain') != (kind == 'scalar' or meth == 'Newton-CG'): continue
                cov = ('call fun', 'call jac', 'return', 'all histories') + (('call hessp',) if kind != 'scalar' else ()) + (('call hess',) if kind != 'scalar' and meth != 'Newton-CG' else ())
                E.append(('scipy %s %s %s' % (kind, lay, meth), e_scipy(kind, lay, meth), cov, dict(props=('C18', 'C17'), functions=['optimization.minimize'] + ['optimization.minimize.' + f for f in ('changevars', 'residuals', 'scalar_jacfunc', 'ns_jacfunc', 'hess', 'hessp')], assumptions=AO, bounded='%s free variables (any shapes, sizes and histories)' % ('three' if lay == 'plain' else 'two'), weight=3)))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
