"""Derivative matrices of any size as elements of the free non-commutative matrix algebra.

A Mat denotes a matrix: a linear combination (rational coefficients) of words of atoms; every atom is an arbitrary matrix
(a local derivative D[s,p], a child's Jacobian T[p,w], a left factor L) with symbolic dimensions.  Its storage is one of
  dense (2-d ndarray), matrix (np.matrix), sparse, number (plain number, 1x1), one (ndarray of one entry, any rank)
and is chosen nondeterministically when the code asks.  Products check their dimensions; a number is a 1x1 matrix.
Contracts of numpy/scipy used here (assumed): X.dot(Y) is the matrix product for the storages above, X.T the transpose,
X+Y the sum, sp.csc_matrix / todense / toarray / np.atleast_2d change the storage only."""
import z3, core, load, stubs
from fractions import Fraction
from core import *

FN = ['']
def fn(): return FN[0]

class Atom(object):
    def __init__(self, name, rows, cols): self.name, self.rows, self.cols = name, rows, cols

def valid(c):
    cx = ctx()
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return not cx.feasible(z3.Not(c))

class Size(object):
    """rows*cols, compared mostly with 1"""
    def __init__(self, r, c): self.r, self.c = r, c
    def __eq__(self, o):
        if o == 1: return SymBool(z3.And(self.r == 1, self.c == 1))
        if o == 0: return False
        return SymInt(self.r * self.c) == o
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __gt__(self, o):
        if o == 1: return SymBool(z3.Not(z3.And(self.r == 1, self.c == 1)))
        return SymInt(self.r * self.c) > o
    def __hash__(self): return 13
    def __le__(self, o): return ~(self > o)
    def __truediv__(self, o): return ratio()
    def __mul__(self, o): return SymInt(self.r * self.c) * o
    def __rtruediv__(self, o): return ratio()
    def __symfloat__(self): return ratio()
def ratio():
    x = SymReal(z3.Real(ctx().fresh('ratio'))); ctx().assume(x.e >= 0); return x

TAGS = ('dense', 'matrix', 'sparse', 'number', 'one')

class _NdMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, Mat) and o.ask('dense', 'matrix', 'one')
class ndarray(object, metaclass=_NdMeta): pass
class _MatMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, Mat) and o.ask('matrix')
class npmatrix(object, metaclass=_MatMeta): pass
class _SpMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, Mat) and o.ask('sparse')
class spmatrix(object, metaclass=_SpMeta): pass
import numbers as _numbers
class _NumMeta(type):
    def __instancecheck__(cls, o): return (isinstance(o, Mat) and o.ask('number')) or isinstance(o, _numbers.Number) or isinstance(o, (SymReal, SymInt))
class Number(object, metaclass=_NumMeta): pass

class Mat(object):
    __symbolic__ = True
    def __init__(self, val, rows, cols, tags=('dense', 'matrix', 'sparse')):
        self.val = dict(val); self.rows, self.cols = rows, cols; self.tags = tuple(tags)
        if set(self.tags) <= {'number', 'one'}: ctx().assume(z3.And(rows == 1, cols == 1))
    # ---- storage
    def ask(self, *yes):
        y = tuple(t for t in self.tags if t in yes); n = tuple(t for t in self.tags if t not in yes)
        if not n: return True
        if not y: return False
        c = ctx()
        one = z3.And(self.rows == 1, self.cols == 1)
        def possible(ts): return not (set(ts) <= {'number', 'one'}) or c.feasible(one)
        if not possible(y): self.tags = n; return False
        if not possible(n): self.tags = y; return True
        k = c.choose(2)
        self.tags = y if k == 0 else n
        if set(self.tags) <= {'number', 'one'}: c.assume(one)
        return k == 0
    def like(self, val, rows, cols, tags): return Mat(val, rows, cols, tags)
    def need2d(self, what):
        if self.ask('number'): raise Unsupported('%s of a number' % what)
        if self.ask('one'): raise Unsupported('%s of a one-entry array of unknown rank' % what)
    # ---- algebra
    def _terms(self): return self.val
    def _mul(self, o):
        v = {}
        for a, x in self.val.items():
            for b, y in o.val.items(): v[a + b] = v.get(a + b, 0) + x * y
        return {k: x for k, x in v.items() if x}
    def dot(self, o):
        if not isinstance(o, Mat):
            if isinstance(o, (int, float)): return self * o
            return NotImplemented if o is None else _unsup('product with %r' % (o,))
        if self.ask('number') or o.ask('number'):
            return self * o
        self.need2d('product'); o.need2d('product')
        ctx().prove('factors have matching dimensions', self.cols == o.rows, fn())
        if self.ask('sparse'): tags = ('sparse',) if o.ask('sparse') else ('dense', 'matrix')
        else:
            if o.ask('sparse'): raise Unsupported('dense.dot(sparse)')
            tags = ('dense', 'matrix')
        return Mat(self._mul(o), self.rows, o.cols, tags)
    __matmul__ = dot
    def matmat(self, o): return self.dot(o)
    def _scale(self, f):
        f = Fraction(f)
        return Mat({k: v * f for k, v in self.val.items()} if f else {}, self.rows, self.cols, self.tags)
    def __mul__(self, o):
        if isinstance(o, (int, float)): return self._scale(o)
        if not isinstance(o, Mat): return NotImplemented
        sn, on = self.ask('number'), o.ask('number')
        if sn and on: return Mat(self._mul(o), z3.IntVal(1), z3.IntVal(1), ('number',))
        if sn: n, m, = self, o
        elif on: n, m = o, self
        else:
            if self.ask('sparse'): return self.dot(o)      # scipy matrices: * is the matrix product
            if self.ask('matrix') and o.ask('matrix', 'dense'): return self.dot(o)
            raise Unsupported('elementwise product of matrices')
        tags = tuple(t for t in m.tags)
        if valid(m.rows == 1): return Mat(n._mul(m), m.rows, m.cols, tags)
        if valid(m.cols == 1): return Mat(m._mul(n), m.rows, m.cols, tags)
        ctx().prove('a number stands for a 1x1 factor of matching dimensions', z3.Or(m.rows == 1, m.cols == 1), fn())
        raise PathEnd()
    __rmul__ = __mul__
    def __neg__(self): return self._scale(-1)
    def __truediv__(self, o):
        if isinstance(o, (int, float)): return self._scale(Fraction(1) / Fraction(o))
        return NotImplemented
    def _sum(self, o, s):
        v = dict(self.val)
        for k, x in o.val.items(): v[k] = v.get(k, 0) + s * x
        return {k: x for k, x in v.items() if x}
    def _addto(self, o, s=1):
        if isinstance(o, (int, float)) and o == 0: return Mat(self.val, self.rows, self.cols, self.tags)
        if not isinstance(o, Mat): return NotImplemented
        ctx().prove('summands have equal dimensions', z3.And(self.rows == o.rows, self.cols == o.cols), fn())
        a, b = self.ask('number'), o.ask('number')
        if a and b: tags = ('number',)
        elif self.ask('sparse') and o.ask('sparse'): tags = ('sparse',)
        else:
            if (self.ask('sparse') and not o.ask('dense', 'matrix')) or (o.ask('sparse') and not self.ask('dense', 'matrix')): raise Unsupported('sum of a sparse matrix and a number')
            tags = ('dense', 'matrix', 'one') if self.ask('one', 'number') and o.ask('one', 'number') else ('dense', 'matrix')
        return Mat(self._sum(o, s), self.rows, self.cols, tags)
    def __add__(self, o): return self._addto(o)
    def __radd__(self, o): return self._addto(o)
    def __sub__(self, o): return self._addto(o, -1)
    def __iadd__(self, o):
        r = self._addto(o)
        if r is NotImplemented: return r
        if self.ask('dense', 'matrix', 'one'):     # in place: every holder of this array sees it
            self.val = r.val; return self
        return r
    def __imul__(self, o):
        r = self * o
        if self.ask('number', 'sparse'): return r
        self.val = r.val; return self
    @property
    def T(self):
        if self.ask('number'): raise AttributeError('T')
        v = {tuple((n, not t) for n, t in reversed(w)): x for w, x in self.val.items()}
        return Mat(v, self.cols, self.rows, self.tags)
    def transpose(self): return self.T
    # ---- storage changes
    def ravel(self):
        if self.ask('number', 'sparse'): raise AttributeError('ravel')
        return Flat(self)
    flatten = ravel
    @property
    def flat(self): return Flat(self)
    def item(self, *a):
        if self.ask('number', 'sparse'): raise AttributeError('item')
        if not valid(z3.And(self.rows == 1, self.cols == 1)): raise Unsupported('item() of a matrix')
        return Mat(self.val, self.rows, self.cols, ('number',))
    def copy(self): return Mat(self.val, self.rows, self.cols, self.tags)
    def view(self, *a):
        if self.ask('number', 'sparse'): raise AttributeError('view')
        return self
    def _sp(self, out):
        if not self.ask('sparse'): raise AttributeError('not a sparse matrix')
        return Mat(self.val, self.rows, self.cols, out)
    def todense(self): return self._sp(('matrix',))
    def toarray(self): return self._sp(('dense',))
    @property
    def A(self):
        if self.ask('sparse', 'matrix'): return Mat(self.val, self.rows, self.cols, ('dense',))
        raise AttributeError('A')
    def tocsc(self): return self._sp(('sparse',))
    tocsr = tocoo = tocsc
    def asformat(self, f): return self._sp(('sparse',))
    def eliminate_zeros(self): self._sp(('sparse',))
    @property
    def nnz(self):
        if not self.ask('sparse'): raise AttributeError('nnz')
        return count_nonzero(self)
    def reshape(self, *a): raise Unsupported('reshape of a derivative matrix')
    @property
    def size(self):
        if self.ask('number'): raise AttributeError('size')
        if self.ask('sparse'): return count_nonzero(self)
        return Size(self.rows, self.cols)
    @property
    def shape(self):
        if self.ask('number'): raise AttributeError('shape')
        if self.ask('one'): raise Unsupported('shape of a one-entry array of unknown rank')
        return (SymInt(self.rows), SymInt(self.cols))
    @property
    def ndim(self):
        if self.ask('number'): raise AttributeError('ndim')
        if self.ask('one'): raise Unsupported('ndim of a one-entry array of unknown rank')
        return 2
    def __symfloat__(self):
        if valid(z3.And(self.rows == 1, self.cols == 1)): return Mat(self.val, self.rows, self.cols, ('number',))
        raise Unsupported('float of a matrix')
    def __bool__(self): raise Unsupported('truth value of a matrix')
    def __eq__(self, o): raise Unsupported('comparison of matrices')
    def __hash__(self): return id(self)
    def __getitem__(self, k): raise Unsupported('entries of a derivative matrix')
    def __repr__(self): return 'Mat(%s: %s x %s %s)' % (show(self.val), self.rows, self.cols, self.tags)

def _unsup(m): raise Unsupported(m)

class Flat(object):
    """m.ravel()"""
    def __init__(self, m): self.m = m
    def __getitem__(self, k):
        m = self.m
        if k == 0 and valid(z3.And(m.rows == 1, m.cols == 1)):
            if m.ask('matrix'): return Mat(m.val, m.rows, m.cols, ('matrix',))   # np.matrix stays a matrix
            return Mat(m.val, m.rows, m.cols, ('number',))
        raise Unsupported('entries of a derivative matrix')
    @property
    def size(self): return Size(self.m.rows, self.m.cols)
    def item(self): return self[0]

def show(val): return ' + '.join('%s%s' % ('' if x == 1 else '%s*' % x, '.'.join(n + ("'" if t else '') for n, t in w) or 'I') for w, x in sorted(val.items())) or '0'

def count_nonzero(m, *a):
    n = SymInt(z3.Int(ctx().fresh('nnz'))); ctx().assume(n.e >= 0); return n

# ---- equality, with 1x1 factors commuting
def atoms(): return ctx().user.setdefault('atoms', {})
def atom(name, rows, cols, tags=('dense', 'matrix', 'sparse')):
    a = atoms()
    if name not in a: a[name] = Atom(name, rows, cols)
    return Mat({((name, False),): Fraction(1)}, a[name].rows, a[name].cols, tags)

def canon(val):
    at = atoms(); out = {}
    for w, x in val.items():
        if not w: out[((), (), ())] = out.get(((), (), ()), 0) + x; continue
        dims = []
        for n, t in w:
            a = at[n]; r, c = (a.cols, a.rows) if t else (a.rows, a.cols)
            if not dims: dims.append(r)
            dims.append(c)
        ones = [i for i, d in enumerate(dims) if valid(d == 1)]
        if ones:
            pre, suf = w[:ones[0]], w[ones[-1]:]
            mids = []
            for i, j in zip(ones, ones[1:]):
                m = w[i:j]; mt = tuple((n, not t) for n, t in reversed(m)); mids.append(min(m, mt))
            key = (pre, tuple(sorted(mids)), suf)
        else: key = (w, None, None)
        out[key] = out.get(key, 0) + x
    return {k: v for k, v in out.items() if v}

def same(a, b):
    if a is None or b is None: return a is None and b is None
    if isinstance(a, (int, float)): a = Mat({(): Fraction(a)} if a else {}, z3.IntVal(1), z3.IntVal(1), ('number',))
    if not isinstance(a, Mat) or not isinstance(b, Mat): return False
    return a.val == b.val or canon(a.val) == canon(b.val)

def prove_same(name, got, want, f, dims=True):
    """got denotes the matrix want (None: absent)"""
    c = ctx()
    if isinstance(got, (int, float)) and not isinstance(got, bool): got = Mat({(): Fraction(got)} if got else {}, z3.IntVal(1), z3.IntVal(1), ('number',))
    if got is not None and not isinstance(got, Mat): raise Unsupported('result %r' % (got,))
    c.prove('%s: absent exactly when it should be' % name, (got is None) == (want is None), f)
    if got is None or want is None: return
    ok = same(got, want)
    c.prove('%s: entries' % name, ok, f)
    if not ok: c.obl[-1].detail = 'got %s, specified %s; ' % (show(got.val), show(want.val)) + c.obl[-1].detail
    c.prove('%s: shape' % name, z3.And(got.rows == want.rows, got.cols == want.cols), f)

def install(st):
    """numpy/scipy names of this theory"""
    np, sp = st['numpy'], st['scipy.sparse']
    np.ndarray = ndarray; np.matrix = npmatrix
    def atleast_2d(x):
        if isinstance(x, (int, float)): return Mat({(): Fraction(x)} if x else {}, z3.IntVal(1), z3.IntVal(1), ('dense',))
        if not isinstance(x, Mat): raise Unsupported('atleast_2d of %r' % (x,))
        if x.ask('sparse'): raise Unsupported('atleast_2d of a sparse matrix')
        if x.ask('matrix'): return x
        if x.ask('dense'): return x
        return Mat(x.val, x.rows, x.cols, ('dense',))
    np.atleast_2d = atleast_2d
    def asarray(x, *a, **k):
        if not isinstance(x, Mat): raise Unsupported('asarray of %r' % (x,))
        if x.ask('sparse'): raise Unsupported('asarray of a sparse matrix')
        if x.ask('number'): return Mat(x.val, x.rows, x.cols, ('one',))
        if x.ask('matrix'): return Mat(x.val, x.rows, x.cols, ('dense',))
        return x
    np.asarray = asarray
    def array(x, *a, **k):
        r = asarray(x)
        return r.copy() if r is x else r
    np.array = array; np.asmatrix = lambda x: Mat(x.val, x.rows, x.cols, ('matrix',))
    np.count_nonzero = count_nonzero
    np.any = lambda x, *a: any(x) if isinstance(x, (list, tuple)) else _unsup('np.any')
    np.all = lambda x, *a: all(x) if isinstance(x, (list, tuple)) else _unsup('np.all')
    np.isscalar = lambda x: isinstance(x, (int, float)) or isinstance(x, Mat) and x.ask('number')
    np.dot = lambda a, b: a.dot(b)
    np.prod = lambda s, *a: _prod(s)
    def _prod(s):
        p = SymInt(1)
        for v in s: p = p * v
        return p
    def to_sparse(x, *a, **k):
        if isinstance(x, (int, float)): return Mat({(): Fraction(x)} if x else {}, z3.IntVal(1), z3.IntVal(1), ('sparse',))
        if not isinstance(x, Mat): raise Unsupported('sparse matrix of %r' % (x,))
        return Mat(x.val, x.rows, x.cols, ('sparse',))
    sp.csc_matrix = sp.csr_matrix = sp.coo_matrix = to_sparse
    def issparse(x): return isinstance(x, Mat) and x.ask('sparse')
    sp.issparse = sp.isspmatrix = issparse; sp.spmatrix = spmatrix
    def eye(n, m=None, *a, **k):
        n = n if isinstance(n, SymInt) else SymInt(n)
        return Mat({(): Fraction(1)}, n.e, n.e, ('sparse',))
    sp.eye = eye; sp.identity = eye; np.eye = lambda n, m=None: Mat({(): Fraction(1)}, n.e if isinstance(n, SymInt) else z3.IntVal(n), n.e if isinstance(n, SymInt) else z3.IntVal(n), ('dense',))
    import types
    num = types.ModuleType('numbers'); num.Number = Number
    for k in ('Integral', 'Real', 'Complex', 'Rational'): setattr(num, k, getattr(_numbers, k))
    return num
