"""C15/C16: contracts on DoglegState and minimize_dogleg, over real inner-product spaces of any dimension."""
import z3, core, load, stubs
from core import *

# ---------------------------------------------------------------- inner-product space
class Space(object):
    """formal vectors: linear combinations (z3 Real coefficients) of base symbols; inner products of base symbols are
    Gram reals with positivity and Cauchy-Schwarz"""
def gram(a, b):
    c = ctx()
    g = c.user.setdefault('gram', {})
    key = tuple(sorted((a, b)))
    if key not in g:
        g[key] = z3.Real('<%s,%s>' % key)
        if a == b: c.fact(g[key] >= 0)
        else:
            x, y = gram(a, a), gram(b, b)
            c.fact(g[key] * g[key] <= x * y)
    return g[key]

class Vec(object):
    def __init__(self, co): self.co = dict(co)
    @staticmethod
    def base(n): return Vec({n: rv(1)})
    def _lin(self, o, s):
        if not isinstance(o, Vec): return NotImplemented
        r = dict(self.co)
        for k, v in o.co.items(): r[k] = (r[k] + s * v) if k in r else (v if s == 1 else -v)
        return Vec(r)
    def __add__(self, o): return self._lin(o, 1)
    def __radd__(self, o): return self._lin(o, 1)
    def __sub__(self, o): return self._lin(o, -1)
    def __neg__(self): return Vec({k: -v for k, v in self.co.items()})
    def __mul__(self, s):
        s = SymReal.of(s)
        if s is None: return NotImplemented
        return Vec({k: v * s.e for k, v in self.co.items()})
    __rmul__ = __mul__
    def __truediv__(self, s):
        s = SymReal.of(s)
        return Vec({k: v / s.e for k, v in self.co.items()})
    def inner(self, o):
        t = rv(0)
        for a, x in self.co.items():
            for b, y in o.co.items(): t = t + x * y * gram(a, b)
        return SymReal(z3.simplify(t))
    @property
    def T(self): return CoVec(self)
    def reshape(self, *a): return self
    def ravel(self): return self
    def copy(self): return self
    @property
    def size(self): return DIM
    def __eq__(self, o): raise Unsupported('elementwise comparison of vectors')
    def __hash__(self): return id(self)
    def same(self, o):
        if not isinstance(o, Vec): return z3.BoolVal(False)
        ks = set(self.co) | set(o.co)
        return z3.And([self.co.get(k, rv(0)) == o.co.get(k, rv(0)) for k in ks]) if ks else z3.BoolVal(True)
    def __repr__(self): return 'Vec(%s)' % self.co

class CoVec(object):
    def __init__(self, v): self.v = v
    def dot(self, o):
        if isinstance(o, Vec): return self.v.inner(o)
        raise Unsupported('covector.dot(%r)' % (o,))
    @property
    def T(self): return self.v
    __matmul__ = dot

class Op(object):
    """product of linear maps, e.g. ('Jt','J')"""
    def __init__(self, fs, sparse=False): self.fs = tuple(fs); self.sparse = sparse
    @property
    def T(self): return Op([(f[:-1] if f.endswith('t') else f + 't') for f in reversed(self.fs)], self.sparse)
    def dot(self, o):
        if isinstance(o, Op): return Op(self.fs + o.fs, self.sparse)
        if isinstance(o, Vec): return Vec({'.'.join(self.fs + (k,)): v for k, v in o.co.items()})
        raise Unsupported('Op.dot(%r)' % (o,))
    __matmul__ = dot
    def copy(self): return self
    @property
    def shape(self): return (SymInt(z3.Int('rows')), SymInt(z3.Int('cols')))
    def same(self, o): return isinstance(o, Op) and self.fs == o.fs
    # sparse look
    def eliminate_zeros(self): return None
    @property
    def nnz(self): return 1
    def tocsr(self): return self
    def tocsc(self): return self
    def __getitem__(self, k): raise Unsupported('Op indexing')
DIM = SymInt(z3.Int('dim'))

def norm(v, ord=None):
    if not isinstance(v, Vec): raise Unsupported('norm of %r' % (v,))
    c = ctx()
    if ord is not None:
        # infinity norm: only its sign matters here
        r = z3.Real(c.fresh('normInf')); c.fact(r >= 0); return SymReal(r, v_nan(v))
    q = z3.simplify(v.inner(v).e)
    cache = c.user.setdefault('norms', {})
    k = q.sexpr()
    if k not in cache:
        s = z3.Real(c.fresh('norm')); c.fact(s >= 0); c.fact(s * s == q); c.fact(q >= 0)
        cache[k] = s
    return SymReal(cache[k], v_nan(v))

def v_nan(v):
    c = ctx(); ns = [n for b, n in c.user.get('nanvecs', {}).items() if b in v.co]
    return None if not ns else (ns[0] if len(ns) == 1 else z3.Or(ns))

def sqrt(x):
    x = SymReal.of(x); c = ctx()
    c.prove('square root of a non-negative number', x.e >= 0, 'DoglegState.beta_multiplier')
    s = z3.Real(c.fresh('sqrt')); c.assume(s >= 0); c.assume(s * s == x.e)
    return SymReal(s, x.nan)

def np_array(x, *a, **k):
    if isinstance(x, (Vec, SymReal, Op)): return x
    raise Unsupported('np.array(%r)' % (x,))

class SparseA(Op): pass

def make_stubs():
    st = stubs.base_stubs(); np = st['numpy']; sp = st['scipy.sparse']
    np.linalg.norm = norm; np.sqrt = sqrt; np.array = np_array; np.asarray = np_array; np.atleast_1d = lambda x: x
    np.any = lambda x: x if isinstance(x, (bool, SymBool)) else (_ for _ in ()).throw(Unsupported('np.any'))
    np.isnan = lambda v: SymBool(v_nan(v)) if isinstance(v, Vec) and v_nan(v) is not None else False
    np.isinf = lambda v: False
    np.abs = np.absolute = np.fabs = lambda x: abs(SymReal.of(x)); np.square = lambda x: x * x; np.maximum = load.s_max; np.minimum = load.s_min; np.dot = lambda a, b: a.dot(b)
    def vdot(a, b): return a.inner(b)
    np.vdot = vdot; np.inner = vdot
    def solve(A, g):
        c = ctx()
        if not isinstance(A, Op) or not isinstance(g, Vec): raise Unsupported('solve')
        c.user['solved'] = (A, g)
        return Vec.base('gn')
    np.linalg.solve = solve; sp.linalg.spsolve = solve
    sp.issparse = lambda x: isinstance(x, Op) and x.sparse
    np.count_nonzero = lambda x: SymInt(z3.Int('nnz'))
    return st, solve

def state_with(m, solve, delta):
    st = m.DoglegState(delta=delta, solve=solve)
    return st

F = 'DoglegState.'
_M = []
def load_m():
    if not _M:
        st, solve = make_stubs()
        _M.append((load.fresh_chumpy(st, ('chumpy.optimization_internal',)), solve, st))
    return _M[0]

FRAME = ('_p', '_r', 'J', 'A', 'g', 'iteration', 'done', 'rho', '_d_sd')
def snapshot(st): return {k: v for k, v in vars(st).items() if k in FRAME}
def frame(st, snap, fn):
    """nothing but the named fields is assigned (vectors are immutable here: in-place updates are outside the contract)"""
    for k in snap:
        if k not in vars(st): raise Unsupported('field %s is gone' % k)
        v = vars(st)[k]
        ok = v is snap[k] or (isinstance(v, Vec) and isinstance(snap[k], Vec) and z3.is_true(z3.simplify(v.same(snap[k])))) or (isinstance(v, Op) and isinstance(snap[k], Op) and v.same(snap[k])) or (isinstance(v, (int, bool)) and v == snap[k])
        ctx().prove('frame: %s is not changed' % k, bool(ok), fn)

def o_update_step():
    """post: |step| <= delta and the step is the Cauchy / Gauss-Newton / dogleg point of the statement"""
    m, solve, _ = load_m(); c = ctx()
    have_delta = c.choose(2) == 0
    d = z3.Real('delta'); c.assume(d > 0)
    st = m.DoglegState(delta=SymReal(d) if have_delta else None, solve=solve)
    J = Op(['J'], sparse=(c.choose(2) == 1))
    st.p = Vec.base('p'); st.J = J; st.A = J.T.dot(J); st.g = Vec.base('g')
    sd, gn = Vec.base('sd'), Vec.base('gn')
    st.d_sd = sd
    given = c.choose(2) == 0
    st.d_gn = gn if given else None
    c.assume(DIM.e > 1)
    snap = snapshot(st)
    st.update_step()
    frame(st, snap, F + 'update_step')
    dl = st.d_dl
    if not isinstance(dl, Vec): raise Unsupported('step is %r' % (dl,))
    S, G = norm(sd).e, norm(gn).e
    fn = F + 'update_step'
    if c.user.get('solved') is not None:
        A, g = c.user['solved']
        c.prove('Gauss-Newton step solves A d = g', A.same(st.A) and isinstance(g, Vec) and set(g.co) == {'g'}, fn)
    now = st.delta
    if now is None: c.prove('a radius exists after the step', False, fn); return
    now = SymReal.of(now).e
    sq = dl.inner(dl).e
    co = dl.co
    a, b = co.get('sd', rv(0)), co.get('gn', rv(0))
    c.prove('step lies in the span of the Cauchy and Gauss-Newton steps', set(k for k in co) <= {'sd', 'gn'}, fn)
    def lemma(name, e):
        if c.prove(name, e, fn): c.assume(e)
    if have_delta:
        c.prove('radius unchanged by proposing a step', now == d, fn)
        cauchy = z3.Implies(S >= d, z3.And(a == d / S, b == 0))
        lemma('Cauchy step reaching the radius is cut at the radius', cauchy)
        lemma('Gauss-Newton step is taken when it fits', z3.Implies(z3.And(S < d, G <= d), z3.And(a == 0, b == 1)))
        lemma('otherwise a point of length equal to the radius', z3.Implies(z3.And(S < d, G > d), sq == d * d))
        c.prove('otherwise a point of the segment', z3.Implies(z3.And(S < d, G > d), z3.And(a + b == 1, b >= 0, b <= 1)), fn)
        if c.feasible(S >= d): c.cover('cauchy')
        if c.feasible(z3.And(S < d, G > d)): c.cover('between')
    else:
        c.prove('without a radius the Gauss-Newton step is taken', z3.And(a == 0, b == 1), fn)
        c.prove('its length becomes the radius', z3.And(now >= 0, now * now == gn.inner(gn).e), fn)
        c.cover('no radius')
    c.prove('step is no longer than the radius', z3.And(sq <= now * now, now >= 0), fn)

def o_start_iteration():
    m, solve, _ = load_m(); c = ctx()
    st = m.DoglegState(delta=None, solve=solve); st.J = Op(['J']); st.p = Vec.base('p')
    st.r = Vec.base('r')
    c.prove('A = J^T J', st.A.same(Op(['Jt', 'J'])), F + 'updateAg')
    g = st.g
    c.prove('g = -J^T r', isinstance(g, Vec) and g.same(-Op(['Jt']).dot(Vec.base('r'))), F + 'updateAg')
    c.assume(g.inner(g).e > 0); Jg = Op(['J']).dot(g); c.assume(Jg.inner(Jg).e > 0)
    it = SymInt(z3.Int('it')); st.iteration = it
    st.d_gn = Vec.base('oldgn')
    st.start_iteration()
    k = g.inner(g).e / Jg.inner(Jg).e
    want = g * SymReal(k)
    c.prove('Cauchy step = |g|^2/|Jg|^2 g', st.d_sd.same(want), F + 'start_iteration')
    c.prove('a new Gauss-Newton step is computed in each iteration', st.d_gn is None, F + 'start_iteration')
    c.prove('iteration counter', SymInt(st.iteration.e if isinstance(st.iteration, SymInt) else st.iteration).e == it.e + 1, F + 'start_iteration')
    c.cover('start')

class One(object):
    """a vector of one entry (one parameter)"""
    def __init__(self, v): self.v = SymReal.of(v)
    def reshape(self, *a): return self
    def ravel(self): return self
    def copy(self): return self
    def __getitem__(self, k):
        if k != 0: raise Unsupported('index %r' % (k,))
        return self.v
    @property
    def size(self): return 1
class One2(object):
    """a sparse matrix of one entry"""
    sparse = True
    def __init__(self, v): self.v = SymReal.of(v)
    def eliminate_zeros(self): return None
    nnz = 1; shape = (1, 1)
    def __getitem__(self, k):
        if k != (0, 0): raise Unsupported('index %r' % (k,))
        return self.v
    def tocsr(self): return self
    tocsc = tocsr

def o_updateGN():
    """post: the Gauss-Newton step solves A d = g, by the solver or, if that fails, in the least-squares sense"""
    m, solve, stb = load_m(); c = ctx()
    c.user['nanvecs'] = {'gn': z3.Bool('gn_nan')}; fails = c.choose(2) == 1; calls = []
    def mysolve(A, g):
        calls.append('solve')
        if fails and not A.sparse: raise ValueError('singular')
        return solve(A, g)
    def ls(A, g, *a, **k):
        calls.append('ls')
        if not isinstance(A, Op) or not isinstance(g, Vec): raise Unsupported('least squares')
        c.user['ls'] = (A, g); return (Vec.base('ls'), 0, 0, 0)
    np, sp = stb['numpy'], stb['scipy.sparse']; keep = np.linalg.solve
    sp.issparse = lambda x: bool(getattr(x, 'sparse', False)); np.atleast_1d = lambda x: One(x) if isinstance(x, SymReal) else x
    np.linalg.solve = mysolve; np.linalg.lstsq = ls; sp.linalg.lsqr = ls; stb['scipy.sparse.linalg'].lsqr = ls
    try:
        st = m.DoglegState(delta=None, solve=mysolve)
        fn = F + 'updateGN'
        if c.choose(2) == 1:
            a, g = SymReal(z3.Real('a00')), SymReal(z3.Real('g0')); c.assume(a.e != 0)
            st.A = One2(a); st.g = One(g)
            st.updateGN()
            if not isinstance(st.d_gn, One): raise Unsupported('step of one parameter is %r' % (st.d_gn,))
            c.prove('one parameter: the Gauss-Newton step solves A d = g', st.d_gn.v.e * a.e == g.e, fn); c.cover('one parameter'); return
        J = Op(['J'], sparse=c.choose(2) == 1); st.J = J; st.p = Vec.base('p'); st.r = Vec.base('r')
        c.assume(DIM.e > 1)
        st.updateGN()
        def system(q): return q[0] is not None and q[0].same(st.A) and z3.is_true(z3.simplify(q[1].same(st.g)))
        if J.sparse or not fails: c.prove('the Gauss-Newton system is A d = g', system(c.user.get('solved', (None, None))), fn)
        failed = z3.Bool('gn_nan') if J.sparse else z3.BoolVal(fails)
        if 'ls' in c.user: c.prove('the fallback is the least-squares solution of A d = g', system(c.user['ls']), fn); c.cover('fallback')
        if not isinstance(st.d_gn, Vec): raise Unsupported('step is %r' % (st.d_gn,))
        c.prove('its solution is the Gauss-Newton step', z3.Implies(z3.Not(failed), st.d_gn.same(Vec.base('gn'))), fn)
        c.prove('if the solver fails, the least-squares solution is', z3.Implies(failed, st.d_gn.same(Vec.base('ls'))), fn)
        c.cover('gn')
    finally:
        np.linalg.solve = keep

def o_radius():
    m, solve, _ = load_m(); c = ctx()
    d = z3.Real('delta'); c.assume(d > 0)
    st = m.DoglegState(delta=SymReal(d), solve=solve)
    st.d_dl = Vec.base('dl'); L = norm(Vec.base('dl')).e
    rho = SymReal(z3.Real('rho'), z3.Bool('rho_nan'))
    snap = snapshot(st); dl0 = st.d_dl
    st.updateRadius(rho)
    frame(st, snap, F + 'updateRadius')
    c.prove('frame: the step is not changed', z3.simplify(st.d_dl.same(dl0)), F + 'updateRadius')
    now = SymReal.of(st.delta).e; n, r = z3.Bool('rho_nan'), z3.Real('rho')
    fn = F + 'updateRadius'
    c.prove('good step raises the radius to 2.5 times the step, never lowering it', z3.Implies(z3.And(z3.Not(n), r > rv(.9)), now == z3.If(rv(2.5) * L > d, rv(2.5) * L, d)), fn)
    c.prove('poor, failed or non-finite step cuts the radius to a quarter', z3.Implies(z3.Or(n, r < rv(.05)), now == d * rv(.25)), fn)
    c.prove('otherwise the radius is unchanged', z3.Implies(z3.And(z3.Not(n), r >= rv(.05), r <= rv(.9)), now == d), fn)
    c.cover('radius')

def o_trial():
    m, solve, _ = load_m(); c = ctx()
    st = m.DoglegState(delta=SymReal(z3.Real('delta')), solve=solve); J = Op(['J']); st.J = J; st.p = Vec.base('p'); st.r = Vec.base('r'); st.d_dl = Vec.base('dl')
    c.user['nanvecs'] = {'new': z3.Bool('new_nan')}
    R, Nw = Vec.base('r'), Vec.base('new')
    t = st.trial_r(Nw)
    fn = F + 'Trial'
    gain = R.inner(R).e - Nw.inner(Nw).e; nan = z3.Bool('new_nan')
    imp = t.is_improvement
    imp = tobool(imp)
    g = st.g; Jd = J.dot(Vec.base('dl'))
    # <dl, A dl> is |J dl|^2: adjointness of J, stated for the inner products involved
    dAd = Vec.base('dl').inner(st.A.dot(Vec.base('dl'))).e
    c.fact(dAd == Jd.inner(Jd).e)
    pred = 2 * g.inner(Vec.base('dl')).e - Jd.inner(Jd).e
    c.prove('a trial is accepted only if the sum of squares decreased', z3.Implies(imp, z3.And(z3.Not(nan), gain > 0)), fn)
    rho = SymReal.of(t.rho)
    c.prove('gain ratio', z3.Implies(z3.And(z3.Not(nan), gain > 0, pred != 0), z3.And(rho.e * pred == gain, z3.Not(rho.nan) if rho.nan is not None else True)), fn)
    c.prove('a failed or non-finite trial has no positive gain ratio', z3.Implies(z3.Or(nan, gain <= 0), z3.Or(rho.nan if rho.nan is not None else False, rho.e <= 0)), fn)
    c.cover('trial')

OPTS = dict(props=('C16',), functions=['optimization_internal.DoglegState.' + n for n in ('__init__', 'p', 'd_gn', 'd_sd', 'd_dl', 'r', 'step', 'step_size', 'start_iteration', 'updateAg', 'update_step', 'beta_multiplier', 'updateGN', 'Trial', 'trial_r', 'updateRadius')],
    assumptions=['machine arithmetic is treated as real arithmetic with a NaN flag', 'np.linalg.norm, dot, T, reshape, ravel are those of a real inner-product space (any dimension > 1; the sparse one-parameter division is decided separately)',
                 'np.linalg.solve / the sparse solver return a vector d with A d = g, or signal failure (NaN entries / an exception); lsqr and lstsq return a least-squares solution of the system they are given', 'J^T is the adjoint of J'])
def entries():
    return [('DoglegState.update_step', o_update_step, ('cauchy', 'between', 'no radius'), OPTS), ('DoglegState.start_iteration', o_start_iteration, ('start',), OPTS),
         ('DoglegState.updateGN', o_updateGN, ('gn', 'fallback', 'one parameter'), OPTS), ('DoglegState.updateRadius', o_radius, ('radius',), OPTS), ('DoglegState.Trial', o_trial, ('trial',), OPTS)]
if __name__ == '__main__':
    import devrun; devrun.main(entries())
