"""C15: minimize_dogleg against the contract of its objective, with loop invariants (any number of iterations)."""
import z3, core, load, stubs
from fractions import Fraction
from core import *

class AVec(object):
    """abstract vector: a linear combination of base symbols with rational coefficients (points are compared by value);
    anything else is a fresh symbol"""
    __symbolic__ = True
    def __init__(self, name): self.co = dict(name) if isinstance(name, dict) else {name: Fraction(1)}
    @property
    def name(self):
        k = sorted((b, x) for b, x in self.co.items() if x)
        if len(k) == 1 and k[0][1] == 1: return k[0][0]
        return '(' + '+'.join('%s*%s' % (x, b) for b, x in k) + ')'
    def _lin(self, o, s):
        if not isinstance(o, AVec): return NotImplemented
        r = dict(self.co)
        for k, v in o.co.items(): r[k] = r.get(k, 0) + s * v
        return AVec({k: v for k, v in r.items() if v})
    def __add__(self, o): return self._lin(o, 1)
    def __radd__(self, o): return self._lin(o, 1)
    def __sub__(self, o): return self._lin(o, -1)
    def __mul__(self, o):
        if isinstance(o, (int, float)): return AVec({k: v * Fraction(o) for k, v in self.co.items()})
        return AVec(ctx().fresh('v'))
    __rmul__ = __mul__
    def __truediv__(self, o): return self * (1. / o) if isinstance(o, (int, float)) else AVec(ctx().fresh('v'))
    def __neg__(self): return AVec({k: -v for k, v in self.co.items()})
    def reshape(self, *a): return self
    def ravel(self): return self
    def copy(self): return self
    def dot(self, o): return arbitrary() if isinstance(o, AVec) else AVec(ctx().fresh('v'))
    @property
    def T(self): return self
    @property
    def r(self): return self
    @property
    def size(self): return SymInt(z3.Int('n'))
    @property
    def shape(self): return (SymInt(z3.Int('n')),)
    def __repr__(self): return self.name

class AMat(AVec):
    sparse = False
    @property
    def T(self): return AMat(self.name + '^T')
    def dot(self, o): return AMat('%s.%s' % (self.name, o.name)) if isinstance(o, AMat) else AVec(ctx().fresh('v'))
    @property
    def shape(self): return (SymInt(z3.Int('m')), SymInt(z3.Int('n')))
    nnz = property(lambda self: SymInt(z3.Int('nnz')))
    def tocsr(self): return self
    def eliminate_zeros(self): pass

def arbitrary():
    c = ctx()
    return SymReal(z3.Real(c.fresh('q')), z3.Bool(c.fresh('qnan')))

def sse_of(point):
    return z3.Real('SSE[%s]' % point), z3.Bool('nonfinite[%s]' % point)

def norm(v, ord=None):
    c = ctx()
    if isinstance(v, AVec) and v.name.startswith('R[') and ord is None:
        e, n = sse_of(v.name[2:-1]); s = z3.Real('norm[%s]' % v.name)
        c.fact(s >= 0); c.fact(s * s == e)
        return SymReal(s, n)
    r = arbitrary(); c.fact(r.e >= 0); return r

class Obj(object):
    """the stacked objective, by contract: obj.r is the residual at obj.x (one function evaluation per new x) and
    evaluating it, or on_changed('x'), copies obj.x to the free variables (C17)"""
    def __init__(self, p0, fv):
        d = self.__dict__; d['_x'] = p0; d['fv'] = p0; d['fresh_r'] = False; d['fevals'] = SymInt(0); d['free_variables'] = fv; d['profiler'] = None
        d['last_report'] = None; d['trials'] = SymInt(0); d['reports'] = 0
    @property
    def x(self): return self._x
    @x.setter
    def x(self, v):
        while not isinstance(v, AVec) and hasattr(v, 'dterms'): v = v.x
        if not isinstance(v, AVec): raise Unsupported('obj.x = %r' % (v,))
        self.__dict__['_x'] = v; self.__dict__['fresh_r'] = False
    def on_changed(self, which):
        if 'x' in which: self.__dict__['fv'] = self._x
    @property
    def r(self):
        c = ctx(); d = self.__dict__
        d['fv'] = d['_x']
        if not d['fresh_r']:
            if d['last_report'] is not None and d['_x'].name != d['last_report'].name:
                # a trial step: allowed only within the budget (or if it is the first one)
                mf = c.user['max_fevals']
                ok = tobool(d['trials'] == 0)
                if mf is not None: ok = z3.Or(ok, tobool(d['fevals'] < mf))
                else: ok = z3.BoolVal(True)
                c.prove('no further trial once the function evaluations are used up', ok, 'minimize_dogleg')
                d['trials'] = d['trials'] + 1
            d['fevals'] = d['fevals'] + 1; d['fresh_r'] = True
        return AVec('R[%s]' % d['_x'].name)
    @property
    def J(self):
        d = self.__dict__; d['fv'] = d['_x']; m = AMat('J[%s]' % d['_x'].name); return m

_M = []
def load_m():
    if not _M:
        st = stubs.base_stubs(); np = st['numpy']; sp = st['scipy.sparse']
        np.linalg.norm = norm; np.array = lambda x, *a, **k: x; np.asarray = lambda x, *a, **k: x; np.atleast_1d = lambda x: x
        np.sqrt = lambda x: arbitrary(); np.square = lambda x: x * x
        np.any = lambda x: SymBool(z3.Bool(ctx().fresh('any'))); np.isnan = np.isinf = np.isfinite = lambda x: x; np.all = np.any
        np.linalg.solve = lambda A, g: AVec(ctx().fresh('gn'))
        sp.issparse = lambda x: False
        np.count_nonzero = lambda x: SymInt(z3.Int('nnz'))
        m = load.fresh_chumpy(st, ('chumpy.optimization_internal',))
        _M.append((m, m.DoglegState))
    return _M[0]

def run():
    c = ctx()
    m, DS0 = load_m()
    # callees by contract (their own contracts are proved for C16): update_step assigns only the step, the Gauss-Newton
    # step and the radius; updateRadius assigns only the radius
    class DS(DS0):
        def __init__(self, *a, **k): inst.append(self); DS0.__init__(self, *a, **k)
        def update_step(self):
            self.d_dl = AVec(c.fresh('step')); self.d_gn = AVec(c.fresh('gn')); self.delta = arbitrary()
        def updateRadius(self, rho, *a, **k): self.delta = arbitrary()
    for n in ('update_step', 'updateRadius', 'start_iteration', 'trial_r'):
        if not hasattr(DS0, n): raise Unsupported('DoglegState.%s is gone' % n)
    inst = []
    m.DoglegState = DS
    obj = Obj(AVec('p0'), object())
    F = 'minimize_dogleg'
    def report():
        d = obj.__dict__
        if d['last_report'] is not None:
            e1, n1 = sse_of(d['fv'].name); e0, n0 = sse_of(d['last_report'].name)
            c.prove('the sum of squares decreases from one reported step to the next', z3.And(z3.Not(n1), e1 < e0), F)
            c.prove('the variables are consistent at a reported step', d['fv'].name == d['_x'].name, F)
            c.cover('accepted step')
        d['last_report'] = d['fv']; d['reports'] += 1
    m.setup_objective = lambda o, fv, on_step=None, disp=True, make_dense=False: (obj, report)
    m.setup_sparse_solver = lambda s: (lambda A, g: AVec(ctx().fresh('gn')))
    maxiter = SymInt(z3.Int('maxiter')); c.assume(maxiter.e >= 0)
    mf = SymInt(z3.Int('max_fevals')); c.assume(mf.e >= 0)
    c.user['max_fevals'] = mf
    kw = dict(maxiter=maxiter, disp=False)
    if mf is not None: kw['max_fevals'] = mf
    for e in ('e_1', 'e_2', 'e_3'):
        kw[e] = SymReal(z3.Real(e)); c.assume(kw[e].e >= 0)
    J = lambda s: s
    def done_expr(): 
        v = inst[0].done
        return tobool(v)
    def check(where, inner):
        s = inst[0]; d = obj.__dict__
        n = ' (%s loop, %s)' % ('inner' if inner else 'outer', where)
        c.prove('the free variables hold the last reported point' + n, d['last_report'] is not None and d['fv'].name == d['last_report'].name, F)
        c.prove('the parameter vector is the last reported point' + n, s.p is not None and s.p.name == d['last_report'].name and d['_x'].name == s.p.name, F)
        dn = done_expr()
        if c.feasible(z3.Not(dn)):
            c.prove('the residual of the current point is used' + n, z3.Or(dn, z3.BoolVal(s.r is not None and s.r.name == 'R[%s]' % s.p.name)), F)
            c.prove('the Jacobian of the current point is used' + n, z3.Or(dn, z3.BoolVal(s.J is not None and s.J.name == 'J[%s]' % s.p.name)), F)
        it = s.iteration if isinstance(s.iteration, SymInt) else SymInt(s.iteration)
        tr, fe = obj.trials, obj.fevals
        c.prove('counters' + n, z3.And(it.e >= 0, tr.e >= 0, fe.e >= 0, z3.Implies(it.e == 0, tr.e == 0)), F)
        if not inner:
            c.prove('no iteration is started once the requested number has been made' + n, z3.Or(dn, it.e == 0, it.e < maxiter.e), F)
            if mf is not None: c.prove('no iteration is started once the evaluations are used up' + n, z3.Or(dn, it.e == 0, fe.e < mf.e), F)
        else:
            c.prove('within an iteration' + n, z3.And(z3.Not(dn), it.e >= 1), F)
            if mf is not None: c.prove('no trial follows once the evaluations are used up' + n, z3.Or(tr.e == 0, fe.e < mf.e), F)
    def havoc(inner):
        s = inst[0]; d = obj.__dict__
        P = AVec(c.fresh('P'))
        s.p = P; d['_x'] = P; d['fv'] = P; d['last_report'] = P; d['fresh_r'] = False
        s.J = AMat('J[%s]' % P.name); s._r = AVec('R[%s]' % P.name); s.A = AMat('A[%s]' % P.name); s.g = AVec('g[%s]' % P.name)
        s.delta = arbitrary()
        s.iteration = SymInt(z3.Int(c.fresh('iteration'))); d['fevals'] = SymInt(z3.Int(c.fresh('fevals'))); d['trials'] = SymInt(z3.Int(c.fresh('trials')))
        it, fe, tr = s.iteration.e, d['fevals'].e, d['trials'].e
        c.assume(it >= 0); c.assume(fe >= 0); c.assume(tr >= 0); c.assume(z3.Implies(it == 0, tr == 0))
        dn = z3.Bool(c.fresh('done'))
        if inner:
            s.done = False; c.assume(it >= 1)
            if mf is not None: c.assume(z3.Or(tr == 0, fe < mf.e))
            s.d_sd = AVec(c.fresh('sd')); s.d_gn = None
        else:
            s.done = SymBool(dn)
            c.assume(z3.Or(dn, it == 0, it < maxiter.e))
            if mf is not None: c.assume(z3.Or(dn, it == 0, fe < mf.e))
    def hook(cond, qual):
        if 'minimize_dogleg' not in qual: return None
        def gen():
            inner = len(c.loopstack) > 0
            check('on entry', inner)
            c.loopstack.append(qual)
            havoc(inner)
            if cond():
                if inner: c.assume(z3.Or(*([tobool(inst[0].done)] if not isinstance(inst[0].done, bool) else []), z3.BoolVal(True)))
                c.cover('inner body' if inner else 'outer body')
                yield None
                check('preserved', inner)
                raise PathEnd()
            c.loopstack.pop()
        return gen()
    load.HOOKS['while'] = hook
    try:
        out = m.minimize_dogleg(object(), object(), **kw)
    finally:
        load.HOOKS['while'] = None
    d = obj.__dict__
    c.prove('on return the free variables hold the last reported (accepted) point', d['last_report'] is not None and d['fv'].name == d['last_report'].name, F)
    c.prove('the free variables are returned', out is obj.free_variables, F)
    c.cover('return')

def entries():
    return [('minimize_dogleg', run, ('inner body', 'outer body', 'accepted step', 'return'),
        dict(props=('C15',), functions=['optimization_internal.minimize_dogleg', 'optimization_internal.DoglegState.start_iteration', 'optimization_internal.DoglegState.Trial', 'optimization_internal.DoglegState.updateJ', 'optimization_internal.DoglegState.r', 'optimization_internal.DoglegState.p'],
             assumptions=['setup_objective by contract: obj.r is the residual at obj.x and costs one evaluation per new x; reading it, or on_changed, copies obj.x into the free variables (the content of C17)',
                          'DoglegState.update_step and updateRadius by the contracts proved for C16 (they assign only the step, the Gauss-Newton step and the radius)',
                          'machine arithmetic is treated as real arithmetic with a NaN flag; infinities are covered by the bounded replay only', 'the step callback does not assign to the free variables']))]
if __name__ == '__main__':
    import devrun; devrun.main(entries())
