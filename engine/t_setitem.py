"""C12: indexed assignment, to a variable and through a view.
Arrays are buffers of entries indexed by flat position (any size); indices, values and shapes are unknown.  numpy's own indexed
assignment is a contract (it sets entries of the buffer it is given, or refuses and changes nothing)."""
import z3, core, load, stubs, weakref
from core import *

class Refused(Exception): pass

R, I = z3.RealSort(), z3.IntSort()
class Buf(object):
    """memory: flat position -> entry (a z3 function body), and what numpy was asked to do with it"""
    def __init__(self, fn, dtype, log=()): self.fn, self.dtype, self.log = fn, dtype, tuple(log)
class A(object):
    """an array: a buffer seen with a shape token; size is symbolic"""
    __symbolic__ = True
    def __init__(self, buf, n, shape='shape', ndim0=False, kind='f'): self.buf, self.n, self._shape, self.ndim0 = buf, n, shape, ndim0; self.kind = kind
    size = property(lambda self: SymInt(self.n)); shape = property(lambda self: self._shape)
    dtype = property(lambda self: self.buf.dtype)
    def copy(self, *a, **k): return A(Buf(self.buf.fn, self.buf.dtype, self.buf.log), self.n, self._shape, self.ndim0, self.kind)
    def view(self): return A(self.buf, self.n, self._shape, self.ndim0, self.kind)
    def astype(self, dt, copy=True, **k):
        r = self.copy(); r.buf.dtype = dtname(dt); old, kd = self.buf.fn, self.kind
        if kd == 'b': raise Unsupported('conversion of truth values')
        r.kind = 'i' if r.buf.dtype == 'int' else 'f'
        if kd == 'f' and r.kind == 'i': r.buf.fn = lambda i: (lambda e: z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))(old(i))
        if kd == 'i' and r.kind == 'f': r.buf.fn = lambda i: z3.ToReal(old(i))
        return r
    def ravel(self, *a): return A(self.buf, self.n, 'flat', False, self.kind)
    def flatten(self, *a): return self.copy().ravel()
    @property
    def flat(self): return self.ravel()
    def reshape(self, *s):
        if s in ((-1,), ((-1,),)): return self.ravel()
        s = s[0] if len(s) == 1 else s
        return A(self.buf, self.n, s, False, self.kind)
    def __symlen__(self): raise Unsupported('length of an array')
    def __len__(self): raise Unsupported('length of an array')
    def __bool__(self): raise Unsupported('truth of an array')
    def __iter__(self): raise Unsupported('iteration over an array')
    def at(self, i): return self.buf.fn(i)
    def _el(self, o, f, kind=None):
        if isinstance(o, (int, float)): g = lambda i: f(self.at(i), (z3.IntVal(int(o)) if self.kind == 'i' and float(o).is_integer() else rv(o)))
        elif isinstance(o, A) and o._shape == self._shape: g = lambda i: f(self.at(i), o.at(i))
        else: raise Unsupported('arithmetic of arrays')
        return A(Buf(g, self.buf.dtype), self.n, self._shape, False, kind or self.kind)
    def __sub__(self, o): return self._el(o, lambda a, b: a - b)
    def __add__(self, o): return self._el(o, lambda a, b: a + b)
    def __mul__(self, o): return self._el(o, lambda a, b: a * b)
    def __ge__(self, o): return self._el(o, lambda a, b: a >= b, 'b')
    def __gt__(self, o): return self._el(o, lambda a, b: a > b, 'b')
    def __lt__(self, o): return self._el(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._el(o, lambda a, b: a <= b, 'b')
    def __eq__(self, o): return self._el(o, lambda a, b: a == b, 'b')
    def __ne__(self, o): return self._el(o, lambda a, b: a != b, 'b')
    __hash__ = None
    def __invert__(self): return A(Buf(lambda i: z3.Not(self.at(i)), 'bool'), self.n, self._shape, False, 'b')
    def __getitem__(self, k):
        if isinstance(k, A) and k.kind == 'b' and k._shape == self._shape: return Sel(self, k)
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)): return self.view()
        raise Unsupported('indexing %r' % (k,))
    def __setitem__(self, k, v):
        c = ctx(); b = self.buf
        if isinstance(k, Key):
            # numpy's indexed assignment with the user's index: sets the entries it selects, or refuses
            if c.choose(2) == 1: c.cover('refused'); raise Refused('numpy refused')
            old = b.fn; hit = z3.Function(c.fresh('hit'), I, z3.BoolSort()); nv = z3.Function(c.fresh('nv'), I, R)
            b.fn = (lambda i: z3.If(hit(i), z3.ToInt(nv(i)), old(i))) if self.kind == 'i' else (lambda i: z3.If(hit(i), nv(i), old(i))); b.log = b.log + (('set', k, v, b.dtype),); return
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
            if isinstance(v, Value):
                if c.choose(2) == 1: c.cover('refused'); raise Refused('could not broadcast')
                b.fn = v.entries(self._shape); b.log = b.log + (('fill', v, b.dtype),); return
            if isinstance(v, A) and v._shape == self._shape: b.fn = v.buf.fn; return
            raise Unsupported('assignment of %r' % (v,))
        if self._shape != 'flat': raise Unsupported('indexed assignment')
        pos, vals = k, v
        pm = vm = None
        if isinstance(pos, Sel): pos, pm = pos.a, pos.m
        if isinstance(vals, Sel): vals, vm = vals.a, vals.m
        if not (isinstance(pos, A) and pos.kind == 'i' and isinstance(vals, A)): raise Unsupported('indexed assignment')
        i = z3.Int(c.fresh('i')); n = pos.n
        rng = lambda x: z3.And(x >= 0, x < n)
        P = lambda x: pm.at(x) if pm is not None else z3.BoolVal(True)
        Q = lambda x: vm.at(x) if vm is not None else z3.BoolVal(True)
        F = 'ch.Ch.__setitem__'
        c.prove('positions and new values correspond one to one', z3.And(pos.n == vals.n, z3.Implies(rng(i), P(i) == Q(i))), F)
        c.prove('positions are within the variable', z3.Implies(z3.And(rng(i), P(i)), z3.And(pos.at(i) >= 0, pos.at(i) < self.n)), F)
        # numpy: entries named once get their value, of several values for one entry the last; other entries are kept
        old = b.fn; new = z3.Function(c.fresh('scattered'), I, R); j, k2 = z3.Int(c.fresh('j')), z3.Int(c.fresh('k'))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(rng(j), P(j), z3.ForAll([k2], z3.Implies(z3.And(k2 > j, k2 < n, P(k2)), pos.at(k2) != pos.at(j)))), new(pos.at(j)) == vals.at(j))))
        c.assume(z3.ForAll([j], z3.Implies(z3.ForAll([k2], z3.Implies(z3.And(rng(k2), P(k2)), pos.at(k2) != j)), new(j) == old(j))))
        b.fn = lambda x: new(x); b.log = b.log + (('scatter', b.dtype),)
class Sel(object):
    """a[mask]"""
    __symbolic__ = True
    def __init__(self, a, m): self.a, self.m = a, m
class Key(object):
    def __repr__(self): return 'key'
class Value(object):
    """the value assigned: numpy broadcasts it to the shape it is assigned to"""
    def __init__(self): self.f = {}
    def entries(self, shape):
        if shape not in self.f: self.f[shape] = z3.Function('value_%s' % shape, I, R)
        return lambda i: self.f[shape](i)
def dtname(dt):
    if dt in (stubs.Float64, float, 'float64', 'd', 'f8'): return 'float64'
    if dt in (int, 'int64', 'int', 'i8', 'intp'): return 'int'
    if dt is None: return None
    raise Unsupported('dtype %r' % (dt,))

_M = []
def mods():
    if not _M:
        st = stubs.base_stubs(); np = st['numpy']
        np.int32 = np.intp = 'int'
        class Nd(type):
            def __instancecheck__(cls, o): return isinstance(o, A)
        np.ndarray = Nd('ndarray', (object,), {})
        m = load.fresh_chumpy(st, ('chumpy.ch',))
        def np_array(x, dtype=None, copy=True, order=None, **k):
            if isinstance(x, Num):
                r = A(Buf(lambda i: x.e, dtname(dtype) or 'float64'), z3.IntVal(1), 'one', True); return r
            if not isinstance(x, A): raise Unsupported('array of %r' % (x,))
            r = x.copy(); d = dtname(dtype)
            return r.astype(dtype) if d and d != r.buf.dtype else r
        def np_asarray(x, dtype=None, order=None, **k):
            if isinstance(x, A) and (dtype is None or dtname(dtype) == x.buf.dtype): return x
            return np_array(x, dtype)
        def np_atleast_1d(x):
            x = np_asarray(x)
            return A(x.buf, x.n, 'shape', False, x.kind) if x.ndim0 else x
        def np_empty(shape, dtype=None, **k):
            u = z3.Function(ctx().fresh('garbage'), I, R)
            n = ctx().user['sizes'].get(shape)
            if n is None: raise Unsupported('size of %r' % (shape,))
            return A(Buf(lambda i: u(i), dtname(dtype) or 'float64'), n, shape)
        def np_arange(*a, **k):
            if len(a) == 1: lo, hi = 0, a[0]
            else: lo, hi = a[:2]
            if len(a) > 2: raise Unsupported('arange with step')
            fl = any(isinstance(x, (float, SymReal)) for x in a) or (k.get('dtype') is not None and dtname(k['dtype']) == 'float64')
            lo_, hi_ = [x.e if isinstance(x, (SymInt, SymReal)) else rv(x) if isinstance(x, float) else z3.IntVal(x) for x in (lo, hi)]
            d = z3.simplify((z3.ToReal(hi_) if hi_.is_int() else hi_) - (z3.ToReal(lo_) if lo_.is_int() else lo_))
            n = z3.simplify(z3.ToInt(d))
            n0 = ctx().user['inner_n']
            if not ctx().feasible(z3.ToReal(n0) != d): n = n0
            lr = z3.ToReal(lo_) if lo_.is_int() else lo_
            return A(Buf((lambda i: lr + z3.ToReal(i)) if fl else (lambda i: lo_ + i), 'float64' if fl else 'int'), n, 'flat', False, 'f' if fl else 'i')
        def np_broadcast_to(v, shape, **k):
            if isinstance(v, Value):
                if ctx().choose(2) == 1: ctx().cover('refused'); raise Refused('could not broadcast')
                n = ctx().user['sizes'].get(shape)
                if n is None: raise Unsupported('size')
                return A(Buf(v.entries(shape), 'any'), n, shape)
            raise Unsupported('broadcast')
        def np_full(shape, v, dtype=None, **k):
            r = np_empty(shape, dtype)
            r[...] = v
            return r
        np.array, np.asarray, np.atleast_1d, np.empty, np.zeros, np.arange, np.broadcast_to, np.full = np_array, np_asarray, np_atleast_1d, np_empty, np_empty, np_arange, np_broadcast_to, np_full
        def np_prod(s):
            n = ctx().user['sizes'].get(s) if isinstance(s, str) else None
            if n is None: raise Unsupported('prod')
            return SymInt(n)
        np.prod = np_prod
        np.ravel = lambda a, *k: a.ravel(); np.copy = lambda a: a.copy()
        _M.append(m)
    return _M[0]
class Num(object):
    """a plain number"""
    def __init__(self, e): self.e = e

def variable(m, x):
    o = object.__new__(m.Ch); o.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': None, 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False)
    o.__dict__['x'] = x; return o
def user_of(m, x):
    """an expression of the variable, with a remembered value"""
    U = type('U', (m.Ch,), dict(dterms=('a',), terms=(), compute_r=lambda self: None)); U.setup_terms()
    u = object.__new__(U); u.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': 'old', 'rview': 'old', 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, a=x)
    x._parents[u] = {'varnames': {'a'}}; return u

def e_variable():
    m = mods(); c = ctx(); F = 'ch.Ch.__setitem__'
    n = z3.Int('n'); c.assume(n >= 1); c.user['sizes'] = {}; c.user['inner_n'] = n
    e = z3.Function('entry', I, R)
    ei = z3.Function('int_entry', I, I)
    what = c.choose(3)      # float array, integer array, plain number
    if what == 2: src = Num(z3.Real('number'))
    else: src = A(Buf((lambda i: e(i)) if what == 0 else (lambda i: ei(i)), ('float64', 'int')[what]), n, 'shape', False, 'fi'[what])
    fn0 = None if what == 2 else src.buf.fn
    x = variable(m, src); u = user_of(m, x); k, v = Key(), Value()
    other = variable(m, src)
    x._cache['r'] = 'old'; x._cache['rview'] = 'old'
    try: m.Ch.__setitem__(x, k, v); ok = True
    except Refused: ok = False
    if what != 2: c.prove('the array the variable was created from is not altered', src.buf.fn is fn0 and not src.buf.log, F)
    c.prove('other variables keep their array', other.__dict__['x'] is src, F)
    if not ok:
        c.prove('a refused assignment changes nothing', x.__dict__['x'] is src and (what == 2 or src.buf.fn is fn0), F)
        return
    got = x.__dict__['x']
    if not isinstance(got, A): c.prove('the variable holds an array', False, F); return
    c.prove('numpy\'s indexed assignment was made once, with the index and value given, on float64 entries', [l[0] for l in got.buf.log] == ['set'] and got.buf.log[0][1] is k and got.buf.log[0][2] is v and got.buf.log[0][3] == 'float64', F)
    c.prove('the variable keeps its shape', got._shape == ('shape'), F)
    c.prove('expressions of the variable are recomputed', x._cache['r'] is None and u._cache['r'] is None and 'a' in u._dirty_vars, F)
    # entries not selected keep their values
    i = z3.Int(c.fresh('i')); c.assume(z3.And(i >= 0, i < n))
    b0 = src.e if what == 2 else e(i) if what == 0 else z3.ToReal(ei(i))
    hit = got.buf.fn(i)
    cond = hit.arg(0) if z3.is_app(hit) and hit.decl().kind() == z3.Z3_OP_ITE else None
    if cond is None: raise Unsupported('contents of the array')
    c.prove('entries that are not selected keep their values', z3.Implies(z3.Not(cond), hit == b0), F)
    c.cover('assigned'); c.cover(('float', 'integer', 'number')[what])

def e_refuse_ch():
    """objects are not assigned to entries"""
    m = mods(); c = ctx(); F = 'ch.Ch.__setitem__'
    n = z3.Int('n'); c.assume(n >= 1); c.user['sizes'] = {}; c.user['inner_n'] = n
    e = z3.Function('entry', I, R); src = A(Buf(lambda i: e(i), 'float64'), n); fn0 = src.buf.fn
    x = variable(m, src); v = variable(m, src)
    try: m.Ch.__setitem__(x, Key(), v); ok = False
    except Refused: raise PathEnd()
    except Unsupported: raise
    except Exception: ok = True
    c.prove('assigning an object to entries is refused', ok, F)
    c.prove('a refused assignment changes nothing', x.__dict__['x'] is src and src.buf.fn is fn0, F)
    c.cover('done')

def e_view():
    m = mods(); c = ctx(); F = 'ch.Ch.__setitem__'
    n, k = z3.Int('n'), z3.Int('selected'); c.assume(n >= 1); c.assume(k >= 0); c.user['sizes'] = {'sel': k, 'shape': n}; c.user['inner_n'] = n
    e = z3.Function('entry', I, R); pos = z3.Function('position', I, I)      # of the selected entries of the view in the variable, -1: none (fill)
    ii = z3.Int('ii')
    c.assume(z3.ForAll([ii], z3.Implies(z3.And(ii >= 0, ii < k), z3.And(pos(ii) >= -1, pos(ii) < n))))
    src = A(Buf(lambda i: e(i), 'float64'), n, 'shape'); fn0 = src.buf.fn
    ro = src.view(); key, v = Key(), Value()
    x = variable(m, src); u = user_of(m, x)
    class Jac(object):
        """the selection matrix of the selected entries with respect to the variable (contract: C02, C05)"""
        def dot(self, w):
            if not isinstance(w, A) or w._shape not in ('flat',): raise Unsupported('product with %r' % (w,))
            c.prove('the selection matrix is applied to a vector with one entry per entry of the variable', w.n == n, F)
            wf = w.buf.fn; zero = rv(0) if w.kind == 'f' else z3.IntVal(0)
            return A(Buf(lambda i: z3.If(pos(i) >= 0, wf(pos(i)), zero), w.buf.dtype), k, 'flat', False, w.kind)
    class Selection(object):
        __symbolic__ = True
        shape = 'sel'; size = SymInt(k)
        def dr_wrt(self, w, *a, **kw):
            if w is not x: raise Unsupported('derivative with respect to something else')
            return Jac()
        def _superdot(self, a, b, *r):
            raise Unsupported('_superdot')     # with one-element vectors its result is not a vector
    class Other(m.Ch):
        dterms = ('a', 'b'); terms = ()
    class Other1(Other):
        """an operation of one input that computes something new from the variable"""
        dterms = ('a',); terms = ()
        shape = 'view'
        @property
        def a(self): return x
        def __getitem__(self, kk):
            if self is not s or kk is not key: raise Unsupported('selection of something else')
            return Selection()
        def __hash__(self): return id(self)
    chain = []
    class View(m.Permute):
        dterms = ('a',); terms = ()
        shape = 'view'
        def __getitem__(self, kk):
            if self is not s or kk is not key: raise Unsupported('selection of something else')
            return Selection()
        @property
        def a(self):
            if '_a' not in self.__dict__:
                j = c.choose(4)
                self.__dict__['_a'] = x if j == 0 else object.__new__(Other) if j == 1 else object.__new__(View) if j == 2 else object.__new__(Other1)
                chain.append(self.__dict__['_a'])
            return self.__dict__['_a']
        def __hash__(self): return id(self)
    def whook(cond, qual):
        if '__setitem__' not in qual: return None
        car = load.CARRIED.get(qual, set())
        def gen():
            it = 0
            while cond():
                it += 1
                # the state at the loop head is the object reached; after the second turn it is the generic view again
                if it > 2 and len(car) == 1: raise PathEnd()
                if it > 5: raise Unsupported('loop over the chain of views')
                yield None
        return gen()
    direct = c.choose(3)
    s = object.__new__((View, Other, Other1)[direct])
    type(x).r  # the real property: computed from x
    x.__dict__['_cache'].update(r=src, rview=ro)
    load.HOOKS['while'] = whook
    err = None
    try: m.Ch.__setitem__(s, key, v)
    except Refused: err = 'numpy'
    except (Unsupported, PathEnd): raise
    except Exception as ex:
        import traceback
        own = traceback.extract_tb(ex.__traceback__)[-1]
        if type(ex) is not Exception and not isinstance(ex, (ValueError, TypeError, NotImplementedError)) or 'symbol' in str(ex): raise
        err = 'refused'
    finally: load.HOOKS['while'] = None
    o = s; isview = True
    while o is not x:
        if isinstance(o, Other): isview = False; break
        o = o.__dict__.get('_a')
        if o is None: raise Unsupported('the chain of views was not followed to its end')
    c.prove('the array the variable held is not altered', src.buf.fn is fn0 and not src.buf.log, F)
    if not isview:
        c.prove('assignment through something that is not a view of a variable is refused', err == 'refused', F)
        c.prove('a refused assignment changes nothing', x.__dict__['x'] is src, F); c.cover('not a view'); return
    if err == 'refused': raise Unsupported('raised')
    if err == 'numpy': c.prove('a refused assignment changes nothing', x.__dict__['x'] is src and u._cache['r'] == 'old', F); return
    got = x.__dict__['x']
    if not isinstance(got, A): c.prove('the variable holds an array', False, F); return
    c.prove('the variable keeps its shape and holds float64 entries', got._shape == 'shape' and got.buf.dtype == 'float64', F)
    c.prove('expressions of the variable are recomputed', x._cache['r'] is None and u._cache['r'] is None and 'a' in u._dirty_vars, F)
    nv = v.entries('sel')
    i0, j0, q = z3.Int(c.fresh('i0')), z3.Int(c.fresh('j0')), z3.Int(c.fresh('q'))
    c.prove('an entry shown by a selected entry gets the value assigned there (the last, if several)', z3.Implies(z3.And(i0 >= 0, i0 < k, pos(i0) >= 0, z3.ForAll([q], z3.Implies(z3.And(q > i0, q < k), pos(q) != pos(i0)))), got.at(pos(i0)) == nv(i0)), F)
    c.prove('every other entry keeps its value', z3.Implies(z3.And(j0 >= 0, j0 < n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), pos(q) != j0))), got.at(j0) == e(j0)), F)
    c.cover('view')

def entries():
    As = ['numpy: indexed assignment sets exactly the selected entries of the array it is applied to, broadcasting the value, or raises and changes nothing; of several values for one entry the last counts',
          'the Jacobian of a chain of selections, reshapes and transposes of a variable is its selection matrix (C02, C05)', '__setattr__ and clear_cache obey their contracts (C07)', 'real arithmetic for entries; positions up to 2**53 are exact in float64']
    return [('assignment to entries of a variable', e_variable, ('assigned', 'refused', 'float', 'integer', 'number'), dict(props=('C12', 'C11'), functions=['ch.Ch.__setitem__', 'ch.Ch.__setattr__'], assumptions=As)),
            ('assignment of an object', e_refuse_ch, ('done',), dict(props=('C12',), functions=['ch.Ch.__setitem__'], assumptions=As)),
            ('assignment through a view', e_view, ('view', 'not a view', 'refused'), dict(props=('C12', 'C11'), functions=['ch.Ch.__setitem__', 'ch.Ch.__setattr__'], assumptions=As))]
if __name__ == '__main__':
    import devrun; devrun.main(entries())
