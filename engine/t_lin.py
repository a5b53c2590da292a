"""C04: matrix functions.  The calculus of the numpy routines is assumed as their contract (derivative of an inverse, a determinant,
a singular value, a singular vector; the normal equations); proved is that the repository's code assembles exactly these derivatives."""
import z3, core, load, stubs, arr, t_ops
from core import *
from arr import *
from t_ops import reset, Ops, value_is, A as A0
from t_reord import dims
from t_red import axes_of, jac

EPS = 2.220446049250313e-16
def mods():
    m = t_ops.mods()
    if 'linalg' not in m: m['linalg'] = 1; install(m['np'])
    return m
# ------------------------------------------------------------------ contracts of numpy.linalg
def entry_eq(u, v):
    """are two entries (terms or sums) provably equal?"""
    if isinstance(u, SumV) and isinstance(v, SumV):
        if len(u.vs) != len(v.vs) or not all(same(x, y) for x, y in zip(u.dims, v.dims)): return False
        c = ctx(); b = z3.substitute(tr(u.body), *zip(u.vs, v.vs)); w = tr(v.body)
        a, b = z3.simplify(b), z3.simplify(w)
        return a.eq(b) or not c.feasible(z3.And([z3.And(x >= 0, x < d) for x, d in zip(v.vs, v.dims)] + [a != b]))
    if isinstance(u, (SumV, SumList)) or isinstance(v, (SumV, SumList)): return False
    a, b = z3.simplify(tr(u)), z3.simplify(tr(v))
    return a.eq(b) or valid(a == b)
def same_array(a, b):
    if len(a.axes) != len(b.axes) or [len(g) for g in a.axes] != [len(g) for g in b.axes]: return False
    if not all(same(x, y) for x, y in zip(a.atoms, b.atoms)): return False
    c = ctx(); i = fresh_idx(a.atoms)
    c._solver.push()
    try:
        for x, d in zip(i, a.atoms): c._solver.add(z3.And(x >= 0, x < d))
        return entry_eq(a.at(i), b.at(i))
    finally: c._solver.pop()
def lookup(kind, a, make):
    """the result of a routine is a function of the matrix (its shape and entries)"""
    d = ctx().user.setdefault('linalg', {}).setdefault(kind, [])
    for b, r in d:
        if same_array(a, b): return r
    r = make(len(d)); d.append((a, r)); return r
def square(a):
    if a.opaque or len(a.axes) < 2: unsup('matrix of unknown shape')
    if len(a.axes[-1]) > 1 or len(a.axes[-2]) > 1: unsup('matrix with factored axes')
    if not same(SymProd(a.axes[-1]).e, SymProd(a.axes[-2]).e): unsup('matrix that is not seen to be square')
def np_inv(a):
    a = frozen(asarr(a)); square(a)
    n = len(a.atoms)
    # inv(A^T) = inv(A)^T
    t = swapaxes(a, -1, -2)
    if same_array(a, t):      # the inverse of a symmetric matrix is symmetric
        f = lookup('inv', a, lambda k: z3.Function('inv%d' % k, *([z3.IntSort()] * n + [R])))
        return SArr(a.axes, lambda i: z3.If(i[-2] <= i[-1], f(*i), f(*(tuple(i[:-2]) + (i[-1], i[-2])))) if n else unsup('inverse of a number'))
    for b, r in ctx().user.setdefault('linalg', {}).setdefault('inv', []):
        if same_array(t, b): return swapaxes(SArr(b.axes, lambda i: r(*i)), -1, -2)
    f = lookup('inv', a, lambda k: z3.Function('inv%d' % k, *([z3.IntSort()] * n + [R])))
    return SArr(a.axes, lambda i: f(*i) if n else unsup('inverse of a number'))
def scalar_fn(kind):
    def g(a):
        a = frozen(asarr(a)); square(a)
        if len(a.axes) != 2: unsup(kind, 'of a stack')
        t = swapaxes(a, -1, -2)
        for b, r in ctx().user.setdefault('linalg', {}).setdefault(kind, []):
            if same_array(t, b): return SymReal(r)
        return SymReal(lookup(kind, a, lambda k: z3.Real('%s%d' % (kind, k))))
    return g
np_det, np_sign, np_logdet = scalar_fn('det'), scalar_fn('sign'), scalar_fn('logabsdet')
def np_slogdet(a): return np_sign(a), np_logdet(a)
class SVD(object): pass
def np_svd(a, full_matrices=True, compute_uv=True, **k):
    a = frozen(asarr(a))
    if full_matrices or not compute_uv or k: unsup('svd options')
    if a.opaque or len(a.axes) != 2 or len(a.axes[0]) > 1 or len(a.axes[1]) > 1: unsup('svd')
    m, n = SymProd(a.axes[0]).e, SymProd(a.axes[1]).e
    if not valid(m >= n): unsup('svd of a wide matrix')      # the code transposes first
    ga, gb = a.axes
    def make(k):
        s = SVD(); s.a = a; s.m, s.n = ga, gb
        s.U = z3.Function('U%d' % k, z3.IntSort(), z3.IntSort(), R); s.D = z3.Function('D%d' % k, z3.IntSort(), R); s.V = z3.Function('V%d' % k, z3.IntSort(), z3.IntSort(), R)
        return s
    s = lookup('svd', a, make)
    def D(i):
        d = s.D(*(i or (z3.IntVal(0),))); c = ctx(); key = ('D', str(d))
        if key not in c.user:
            c.user[key] = 1; c.assume(d >= rv(EPS))
        return d
    def pad(i, *gs):
        it = iter(i); return [next(it) if g else z3.IntVal(0) for g in gs]
    return (SArr((ga, gb), lambda i: s.U(*pad(i, ga, gb))), SArr((gb,), D), SArr((gb, gb), lambda i: s.V(*(lambda p: (p[1], p[0]))(pad(i, gb, gb)))))
def np_solve(a, b):
    a, b = frozen(asarr(a)), frozen(asarr(b))
    if len(a.axes) != 2 or lit(SymProd(a.axes[0]).e) != 2 or lit(SymProd(a.axes[1]).e) != 2: unsup('solve of other than 2x2 systems')
    if len(b.axes) != 1: unsup('solve')
    I = z3.IntVal
    p, q, r, s = [tr(a.at((I(x), I(y)))) for x in (0, 1) for y in (0, 1)]; u, v = tr(b.at((I(0),))), tr(b.at((I(1),)))
    det = p * s - q * r
    x = [(u * s - q * v) / det, (p * v - r * u) / det]
    return SArr(((I(2),),), lambda i: x[lit(i[0])] if lit(i[0]) is not None else ite_chain(i[0], x))
def sp_block_diag(ms, format=None, dtype=None):
    if not (isinstance(ms, SArr) and not ms.opaque and len(ms.axes) == 3): unsup('block_diag')
    a = frozen(ms); g, r, k = a.axes
    def e(i, j):
        t, i2 = i[:len(g)], i[len(g):]; u, j2 = j[:len(g)], j[len(g):]
        return [(z3.And([z3.BoolVal(True)] + [x == y for x, y in zip(t, u)]), a.at(tuple(t) + tuple(i2) + tuple(j2)))]
    return SMat(g + r, g + k, [e])
def install(np):
    la = np.linalg
    la.inv = UF(np_inv, 'inv'); la.det = UF(np_det, 'det'); la.slogdet = UF(np_slogdet, 'slogdet'); la.svd = UF(np_svd, 'svd'); la.solve = UF(np_solve, 'solve')
    import sys
    sys.modules['scipy.sparse'].block_diag = UF(sp_block_diag, 'block_diag')

# ------------------------------------------------------------------ contracts of the repository's functions
def rows_cols(J, out, leaf, F):
    """entry at a generic row and column"""
    c = ctx(); M = matrix_of(J)
    i = tuple(z3.Int(c.fresh('i')) for _ in out.atoms); j = leaf.index()
    for x, d in zip(i, out.atoms): c.assume(z3.And(x >= 0, x < d))
    if M is None: c.prove('the Jacobian is a matrix', False, F); return None
    M, ii, jj = conform(M, out.atoms, i, leaf.atoms, j, F)
    if M is None: return None
    return M.entry(ii, jj), i, j
def other_none(node, m, F):
    ctx().prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
def change(x, leaf, name, axes): 
    l = Leaf(name, axes); x.x = l.arr(ro=False); return l

def e_inv(rank, make=None):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.Inv'
        def axes(t):
            ds = dims(*['%s%d' % (t, k) for k in range(rank - 1)]); return tuple((d,) for d in ds) + ((ds[-1],),)
        ax = axes('n'); a = O.operand('v_a', ax); leaf = a.__dict__['_leaf']
        node = m['lin'].inv(a)
        def look(leaf, when):
            B = np_inv(a.x)
            value_is('the value is numpy\'s' + when, node.r, B, F + '.compute_r')
            node._call_on_changed()
            J = node.compute_dr_wrt(a)
            if J is None: c.prove('a derivative is reported', False, F + '.compute_dr_wrt'); return
            g = rows_cols(J, node.r, leaf, F + '.compute_dr_wrt')
            if g is None: return
            e, i, j = g
            s, ii, jj = i[:-2], i[-2], i[-1]; t, k, l = j[:-2], j[-2], j[-1]
            want = z3.If(z3.And([z3.BoolVal(True)] + [x == y for x, y in zip(s, t)]), -tr(B.at(s + (ii, k))) * tr(B.at(s + (l, jj))), rv(0))
            prove_eq('each entry of the Jacobian is the partial derivative', total([x[:2] for x in e]), want, F + '.compute_dr_wrt')
        look(leaf, ''); other_none(node, m, F); c.cover('first')
        leaf = change(a, leaf, 'w_a', axes('m') if c.choose(2) else ax)
        look(leaf, ' after a change'); c.cover('after a change')
    return f
def e_det(which):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.' + {'det': 'Det', 'logdet': 'LogAbsDet'}[which]
        n, k = dims('n', 'k'); ax = ((n,), (n,))
        a = O.operand('v_a', ax); leaf = a.__dict__['_leaf']
        if which == 'det': node = m['lin'].det(a); sgn = None
        else: sgn, node = m['lin'].slogdet(a)
        def look(leaf, when):
            B = np_inv(a.x); d = np_det(a.x) if which == 'det' else np_logdet(a.x)
            def sign():
                value_is('the sign is numpy\'s' + when, sgn.r, np_atleast_1d(np_sign(a.x)), 'linalg.SignLogAbsDet.compute_r')
                c.prove('the sign has no derivative', sgn.compute_dr_wrt(node) is None, 'linalg.SignLogAbsDet.compute_dr_wrt')
            first = c.choose(2) if sgn is not None else 0
            if first: sign()
            value_is('the value is numpy\'s' + when, node.r, np_atleast_1d(d), F + '.compute_r')
            if sgn is not None and not first: sign()
            node._call_on_changed()
            J = node.compute_dr_wrt(a)
            if J is None: c.prove('a derivative is reported', False, F + '.compute_dr_wrt'); return
            g = rows_cols(J, node.r, leaf, F + '.compute_dr_wrt')
            if g is None: return
            e, i, j = g
            want = tr(B.at((j[1], j[0])))
            if which == 'det': want = d.e * want
            prove_eq('each entry of the Jacobian is the partial derivative', total([x[:2] for x in e]), want, F + '.compute_dr_wrt')
        look(leaf, ''); other_none(node, m, F); c.cover('first')
        leaf = change(a, leaf, 'w_a', ((k,), (k,)) if c.choose(2) else ax)
        look(leaf, ' after a change'); c.cover('after a change')
    return f

class Token(object):
    __symbolic__ = True
    def __init__(self, obj, wrt): self.obj, self.wrt = obj, wrt
UNDER_CONTRACT = set('dot transpose Reshape Ravel NanDivide divide Inv SvdD SvdV SvdU add subtract multiply power sum sqrt square negative Pinv swapaxes reciprocal SumOfSquares Select ChLambda ChHandle'.split())
def composition(name, tok, node, wrt, leaf, F, value):
    """the derivative is that of another expression: it must be made of operations under contract, hold no value of the operand as a
    constant, and have the node's value.  (Its derivative is then right by the chain rule, C05.)"""
    c = ctx()
    if not isinstance(tok, Token): unsup('derivative that is not that of an expression')
    c.prove('differentiates with respect to the operand', tok.wrt is wrt, F)
    st = [tok.obj]; seen = {}
    Ch = type(tok.obj).__mro__[-2] if False else t_ops.mods()['ch'].Ch
    while st:
        n = st.pop()
        if id(n) in seen or n is wrt: continue
        seen[id(n)] = n
        if type(n) is Ch:
            v = n.x; v = v.at(fresh_idx(v.atoms)); v = v.body if isinstance(v, SumV) else v
            if isinstance(v, SumList): unsup('constant of a composition')
            c.prove('no value of the operand is held as a constant', not (apps(tr(v), [leaf.f]) if leaf.f is not None else occurs(tr(v), leaf.c)) and not has_linalg(tr(v)), F)
            continue
        if type(n).__name__ not in UNDER_CONTRACT: unsup('built of', type(n).__name__)
        for d in list(n.dterms) + list(n.terms):
            x = n.__dict__.get(d, None) if d not in n.__dict__ else n.__dict__[d]
            if isinstance(x, Ch) : st.append(x)
    c.prove('depends on the operand', reaches(tok.obj, wrt, Ch), F)
    value(tok.obj)
def has_linalg(e): return any(x.decl().name().rstrip('0123456789') in ('inv', 'U', 'D', 'V', 'det', 'sign', 'logabsdet') for x in all_apps(e))
def all_apps(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: yield x
def reaches(n, w, Ch, depth=0):
    if n is w: return True
    if depth > 40: return False
    return any(reaches(n.__dict__[d], w, Ch, depth + 1) for d in n.dterms if isinstance(n.__dict__.get(d), Ch))
class tokens(object):
    def __enter__(self):
        self.C = mods()['ch'].Ch; self.old = self.C.__dict__['dr_wrt']
        self.C.dr_wrt = lambda s, w, *a, **k: Token(s, w)
    def __exit__(self, *a): self.C.dr_wrt = self.old

def pinv_ref(A, wide):
    At = transpose(A)
    return np_dot(At, np_inv(np_dot(A, At))) if wide else np_dot(np_inv(np_dot(At, A)), At)
def e_pinv(wide):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.Pinv'
        p, q = dims('p', 'q'); c.assume(q > p if wide else p >= q)
        a = O.operand('v_a', ((p,), (q,))); leaf = a.__dict__['_leaf']
        node = m['lin'].pinv(a)
        def look(leaf, wide, when):
            want = pinv_ref(a.x, wide)
            def val_(what): return lambda o: value_is(what + when, o.r, want, F + '.compute_r')
            def J():
                node._call_on_changed()
                with tokens(): t = node.compute_dr_wrt(a)
                if t is None: c.prove('a derivative is reported', False, F + '.compute_dr_wrt'); return
                composition('pinv', t, node, a, leaf, F + '.compute_dr_wrt', val_('the expression differentiated has the node\'s value'))
            if c.choose(2): J()        # the derivative may be asked for before the value
            val_('the value is the pseudo-inverse')(node)
            J()
        look(leaf, wide, ''); other_none(node, m, F); c.cover('first')
        k = c.choose(4)
        if k == 0: w = wide; leaf = change(a, leaf, 'w_a', ((p,), (q,)))
        elif k == 1:      # the transposed shape
            leaf = change(a, leaf, 'w_a', ((q,), (p,))); w = bool(c.fork(p > q))
        else:
            r, s = dims('r', 's'); w = k == 2; c.assume(s > r if w else r >= s); leaf = change(a, leaf, 'w_a', ((r,), (s,)))
        look(leaf, w, ' after a change'); c.cover('after a change')
    return f

def e_svd(wide, square_=False):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.Svd'
        p, q = dims('p', 'q')
        if square_: q = p
        else: c.assume(p < q if wide else p > q)
        ax = ((p,), (q,)); a = O.operand('v_a', ax); leaf = a.__dict__['_leaf']
        u, d, v = m['lin'].svd(a)
        order = list(c_orders[c.choose(len(c_orders))])
        def look(leaf, when):
            A_ = a.x if not wide else transpose(a.x)
            U, D, Vt = np_svd(A_, full_matrices=False)
            # the product of the factors is the matrix (contract of numpy.linalg.svd) and the code returns these factors
            vals = {'u': (u, U if not wide else transpose(Vt)), 'd': (d, D), 'v': (v, Vt if not wide else transpose(U))}
            for k in order: value_is('factor %s is numpy\'s (up to signs)%s' % (k, when), vals[k][0].r, vals[k][1], F)
            # the nodes that hold the factors of the tall matrix
            base = dict(U=u if not wide else v.a if hasattr(v, 'a') else None, V=v if wide else None)
            nodes = find(m, (u, d, v))
            X = nodes['x']; xl = leaf
            if X is not a:
                c.prove('the factored matrix is the operand or its transpose', type(X).__name__ in ('transpose',) and X.a is a, F)
            def entry(node, nm, want):
                node._call_on_changed()
                J = node.compute_dr_wrt(X)
                if J is None: c.prove('a derivative is reported', False, nm); return
                xl = Leaf('x_any', X.r.axes)
                g = rows_cols(J, node.r, xl, nm)
                if g is None: return
                e, i, j = g; want(e, i, j)
            s = [r for b, r in c.user['linalg']['svd'] if same_array(b, frozen(A_))][0]
            def wD(e, i, j): prove_eq('each entry of the Jacobian is the partial derivative', total([x[:2] for x in e]), s.U(j[0], i[0]) * s.V(j[1], i[0]), 'linalg.SvdD.compute_dr_wrt')
            def wV(e, i, j):
                # dV = V Omega, Omega_kl = (V_jk U_il D_l + D_k U_ik V_jl) / (D_l^2 - D_k^2), Omega_kk = 0
                if len(e) != 1 or not isinstance(e[0][1], SumV): unsup('entry that is not a sum')
                S = e[0][1]; c.prove('every entry is given', valid(e[0][0]), 'linalg.SvdV.compute_dr_wrt')
                if len(S.vs) != 1: unsup('entry that is not a single sum')
                k, l, ii, jj = S.vs[0], i[1], j[0], j[1]
                c.prove('the sum is over the singular values', same(S.dims[0], s.n[0]), 'linalg.SvdV.compute_dr_wrt')
                Dk, Dl = s.D(k), s.D(l)
                cond = [k >= 0, k < s.n[0], Dk >= rv(EPS), Dl >= rv(EPS), z3.Implies(k != l, Dk != Dl)]
                want = z3.If(k == l, rv(0), s.V(i[0], k) * (s.V(jj, k) * s.U(ii, l) * Dl + Dk * s.U(ii, k) * s.V(jj, l)) / (Dl * Dl - Dk * Dk))
                for cs, w in (([k < l], want), ([k == l], rv(0)), ([k > l], want)):
                    prove_rational('each entry of the Jacobian is the partial derivative', tr(S.body), w, 'linalg.SvdV.compute_dr_wrt', cond + cs)
            entry(nodes['d'], 'linalg.SvdD.compute_dr_wrt', wD)
            entry(nodes['v'], 'linalg.SvdV.compute_dr_wrt', wV)
            with tokens():
                nodes['u']._call_on_changed(); t = nodes['u'].compute_dr_wrt(X)
            def uval(o):
                r = o.r; i = fresh_idx(r.atoms)
                for x, dd in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < dd))
                e = r.at(i)
                if not isinstance(e, SumV) or len(e.vs) != 1: unsup('composition of another form')
                want = tr(frozen(A_).at((i[0], e.vs[0]))) * s.V(e.vs[0], i[1]) / s.D(i[1])
                if not same(e.dims[0], s.n[0]): unsup('composition of another form')
                cond = [s.D(i[1]) >= rv(EPS)]
                if c.feasible(z3.And(cond + [tr(e.body) != want])): unsup('composition of another form')
                c.prove('the expression differentiated is A V / D', True, 'linalg.SvdU.compute_dr_wrt')
            if t is None: c.prove('a derivative is reported', False, 'linalg.SvdU.compute_dr_wrt')
            else: composition('svd', t, nodes['u'], X, leaf, 'linalg.SvdU.compute_dr_wrt', uval)
            for k in 'duv':
                if nodes[k].compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is not None: c.prove('no derivative with respect to anything else', False, F)
        look(leaf, ''); c.cover('first')
        if c.choose(2):
            r, t = dims('r', 't')
            if square_: t = r
            else: c.assume(r < t if wide else r > t)
            ax = ((r,), (t,))
        leaf = change(a, leaf, 'w_a', ax)
        look(leaf, ' after a change'); c.cover('after a change')
    return f
c_orders = ['udv', 'vud', 'duv']
def find(m, roots):
    L = m['lin']; st = list(roots); out = {}; seen = set(); Ch = m['ch'].Ch
    while st:
        n = st.pop()
        if id(n) in seen: continue
        seen.add(id(n))
        for k, cl in (('d', L.SvdD), ('v', L.SvdV), ('u', L.SvdU)):
            if type(n) is cl: out[k] = n
        st += [n.__dict__[d] for d in list(n.dterms) + list(n.terms) if isinstance(n.__dict__.get(d), Ch)]
    if set(out) != set('duv'): unsup('factors are computed by other classes')
    out['x'] = out['d'].x
    if out['v'].x is not out['x'] or out['u'].x is not out['x']: unsup('factors of different matrices')
    return out
def e_norm(rank):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.norm'; c.user['sumterms'] = True
        x = O.operand('v_x', axes_of(rank) if rank else None); leaf = x.__dict__['_leaf']
        node = m['lin'].norm(x)
        def look(when):
            y = x.x; w = ufunc1(lambda v: FN['sqrt'](tr(v)), np_sum(y * y), 'f')
            value_is('the value is numpy\'s' + when, node.r, np_atleast_1d(w), F)
        look('')
        composition('norm', Token(node, x), node, x, leaf, F, lambda o: None); c.cover('first')
        leaf = change(x, leaf, 'w_x', axes_of(rank, 'm') if rank else OShape(['W_shape'])); look(' after a change'); c.cover('after a change')
    return f
def e_lstsq(wide, vec):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'linalg.lstsq'; c.user['sumterms'] = True
        p, q, r = dims('p', 'q', 'r'); c.assume(q > p if wide else p >= q)
        a = O.operand('v_a', ((p,), (q,))); b = O.operand('v_b', ((p,),) if vec else ((p,), (r,)))
        x, res = m['lin'].lstsq(a, b)[:2]
        def look(when):
            X = np_dot(pinv_ref(a.x, wide), b.x)
            value_is('the solution is the pseudo-inverse times the right-hand side' + when, x.r, X, F)
            value_is('the residuals are the sums of squares' + when, res.r, np_atleast_1d(np_sum(ufunc2(f_pow, np_dot(a.x, X) - b.x, 2), 0)), F)
        look('')
        for o in (a, b): composition('lstsq', Token(x, o), x, o, o.__dict__['_leaf'], F, lambda o: None); composition('lstsq', Token(res, o), res, o, o.__dict__['_leaf'], F, lambda o: None)
        c.cover('first')
        l2 = change(a, None, 'w_a', ((p,), (q,))); k = c.choose(3)
        if k == 1: change(b, None, 'w_b', b.x.axes)
        if k == 2: p, q, r = dims('p2', 'q2', 'r2'); c.assume(q > p if wide else p >= q); change(a, None, 'w_a', ((p,), (q,))); change(b, None, 'w_b', ((p,),) if vec else ((p,), (r,)))
        look(' after a change'); c.cover('after a change')
    return f
def prove_rational(name, a, b, F, conds):
    """equality of quotients: decided after clearing denominators, which are non-zero under the conditions"""
    c = ctx(); a, b = resolve(a, conds), resolve(b, conds)
    n1, d1 = frac(a); n2, d2 = frac(b)
    c.prove('denominators do not vanish', z3.Implies(z3.And(list(conds)), z3.And(d1 != 0, d2 != 0)), F)
    import sympy
    try:
        env = {}; x = to_sympy(n1, env) * to_sympy(d2, env) - to_sympy(n2, env) * to_sympy(d1, env)
        if sympy.expand(x) == 0: c.obl.append(core.Obligation(name, F, 'proved', 'sympy polynomial identity', 0.)); return True
    except Unsupported: pass
    return prove_eq(name, n1 * d2, n2 * d1, F, conds)
def resolve(e, conds):
    """if-then-else whose condition is decided"""
    g = z3.And(list(conds))
    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            if valid(z3.Implies(g, x.arg(0))): return go(x.arg(1))
            if valid(z3.Implies(g, z3.Not(x.arg(0)))): return go(x.arg(2))
            return x
        if z3.is_app(x) and x.num_args() and z3.is_real(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            ch = [go(y) for y in x.children()]
            return x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.Sum(ch) if x.decl().kind() == z3.Z3_OP_ADD else z3.Product(ch))
        return x
    return go(e)
def frac(e):
    k = e.decl().kind() if z3.is_app(e) else None; ch = e.children()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        n, d = frac(ch[0])
        for x in ch[1:]:
            n2, d2 = frac(x)
            if d.eq(d2): n = n + n2 if k == z3.Z3_OP_ADD else n - n2
            else: n, d = (n * d2 + n2 * d if k == z3.Z3_OP_ADD else n * d2 - n2 * d), d * d2
        return n, d
    if k == z3.Z3_OP_UMINUS: n, d = frac(ch[0]); return -n, d
    if k == z3.Z3_OP_MUL:
        n, d = rv(1), rv(1)
        for x in ch: p, q = frac(x); n = n * p; d = d * q if not q.eq(rv(1)) else d
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = frac(ch[0]); p, q = frac(ch[1]); return n * q, d * p
    return e, rv(1)
def to_sympy(e, env):
    import sympy
    if z3.is_rational_value(e): return sympy.Rational(e.numerator_as_long(), e.denominator_as_long())
    k = e.decl().kind(); ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        key = z3.simplify(e).sexpr()
        if key not in env: env[key] = sympy.Symbol('s%d' % len(env))
        return env[key]
    v = [to_sympy(x, env) for x in ch]
    if k == z3.Z3_OP_ADD: return sum(v)
    if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if k == z3.Z3_OP_UMINUS: return -v[0]
    if k == z3.Z3_OP_MUL:
        r = v[0]
        for x in v[1:]: r = r * x
        return r
    unsup('term')
A = A0[:1] + ['calculus of the matrix functions, assumed as contracts of numpy.linalg: d inv(A) = -inv(A) dA inv(A), slice by slice of a stack; d det(A) = det(A) tr(inv(A) dA); d log|det(A)| = tr(inv(A) dA); for A = U diag(D) V\' with distinct non-zero D: dD_k = U_k\' dA V_k and dV = V Omega with Omega_kl = (V_jk U_il D_l + D_k U_ik V_jl)/(D_l^2 - D_k^2) per entry dA_ij; U = A V / D',
     'the pseudo-inverse of a full-rank matrix is inv(A\'A)A\' (tall) or A\'inv(AA\') (wide)', 'the result of a numpy.linalg routine is a function of the shape and entries of its argument, and inv(A\') = inv(A)\'',
     'singular values are at least the machine epsilon and distinct', 'the derivative of an expression built of operations under contract is right (C01, C02, C03, C05)', 'loops over a symbolic range are run once for a generic index: the verifier checks that iterations are independent (no carried values, entries assigned only once)']
def entries():
    m = mods(); E = []
    def add(name, f, cov, fns, **k): E.append((name, f, cov, dict(dict(props=('C04', 'C10', 'C08', 'C07', 'C11'), functions=fns, assumptions=A, max_time=200), **k)))
    for rk in (2, 3, 4): add('inverse, rank %d' % rk, e_inv(rk), ('first', 'after a change'), ['linalg.Inv.compute_r', 'linalg.Inv.compute_dr_wrt'], bounded='rank %d, any dimensions' % rk)
    add('determinant', e_det('det'), ('first', 'after a change'), ['linalg.Det.compute_r', 'linalg.Det.compute_dr_wrt'])
    add('log-determinant and sign', e_det('logdet'), ('first', 'after a change'), ['linalg.LogAbsDet.compute_r', 'linalg.LogAbsDet.compute_dr_wrt', 'linalg.LogAbsDet.on_changed', 'linalg.SignLogAbsDet.compute_r', 'linalg.SignLogAbsDet.compute_dr_wrt', 'linalg.slogdet'])
    for w in (False, True): add('pseudo-inverse, %s' % ('wide' if w else 'tall or square'), e_pinv(w), ('first', 'after a change'), ['linalg.Pinv.on_changed', 'linalg.Pinv.compute_r', 'linalg.Pinv.compute_dr_wrt'])
    S = ['linalg.Svd', 'linalg.SvdD.UDV', 'linalg.SvdD.compute_r', 'linalg.SvdD.compute_dr_wrt', 'linalg.SvdV.compute_r', 'linalg.SvdV.compute_dr_wrt', 'linalg.SvdU.compute_r', 'linalg.SvdU.compute_dr_wrt']
    add('singular value decomposition, tall', e_svd(False), ('first', 'after a change'), S, weight=3)
    add('singular value decomposition, wide', e_svd(True), ('first', 'after a change'), S, weight=3)
    add('singular value decomposition, square', e_svd(False, True), ('first', 'after a change'), S, weight=3)
    add('norm, any shape', e_norm(0), ('first', 'after a change'), ['linalg.norm'])
    for w in (False, True):
        for v in (True, False): add('least squares, %s matrix, %s right-hand side' % ('wide' if w else 'tall', 'vector' if v else 'matrix'), e_lstsq(w, v), ('first', 'after a change'), ['linalg.lstsq'])
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
