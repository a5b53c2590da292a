"""C01 (and values, C10/C11): elementwise operations on operands of any shape, with any broadcasting and aliasing."""
import sys, z3, core, load, stubs, arr
from core import *
from arr import *

_M = {}
def mods():
    if not _M:
        st = stubs.base_stubs(); np = arr.install(st)
        ms = load.fresh_chumpy(st, ('chumpy.ch', 'chumpy.ch_ops', 'chumpy.reordering', 'chumpy.linalg', 'chumpy.extras', 'chumpy.logic'))
        _M.update(ch=ms[0], ops=ms[1], reo=ms[2], lin=ms[3], ext=ms[4], logic=ms[5], np=np)
    return _M

class Ops(object):
    """operands of one scenario"""
    def __init__(self): self.leaf = {}
    def operand(self, name, axes=None):
        m = mods()
        if axes is None:
            axes = OShape([name.upper() + '_shape'])
        l = Leaf(name, axes)
        o = m['ch'].Ch(l.arr(ro=False))
        self.leaf[id(o)] = l; o.__dict__['_leaf'] = l
        return o
def reset():
    """module level caches start empty (their contents are the business of the two-call scenarios)"""
    o = mods()['ops']
    for k, v in list(o.__dict__.items()):
        if isinstance(v, dict) and not k.startswith('__') and k != 'main': v.clear()
def entry_conditions(cls, leafs, out):
    """where the operation is differentiable: stated for the entries that feed the entry at hand"""
    return []

def value_is(name, got, want, f):
    """same shape, same entries; and the value is not altered by anything that follows"""
    c = ctx()
    if isinstance(got, SArr): protect(got, 'a value returned earlier is not altered', f)
    c.prove('the value is a float64 array of at least one dimension', isinstance(got, SArr) and got.kind == 'f' and (got.opaque or len(got.axes) > 0), f)
    c.prove('the value is read-only', isinstance(got, SArr) and (got.ro or got.buf.ro), f)
    i = tuple(z3.Int(c.fresh('i')) for _ in want.atoms)
    for x, d in zip(i, want.atoms): c.assume(z3.And(x >= 0, x < d))
    if want.opaque:
        c.prove('the value has numpy\'s shape', bool(got.opaque and got.axes.prims == want.axes.prims) or (got.opaque and valid(got.axes.e == want.axes.e)), f)
        k = i
    else:
        if got.opaque: return c.prove('the value has numpy\'s shape', False, f)
        a, b = got.shape, want.shape
        ok = len(a) == len(b)
        c.prove('the value has numpy\'s rank', ok, f)
        if not ok: return
        for p, q in zip(got.axes, want.axes): c.prove('the value has numpy\'s shape', SymProd(p).e == SymProd(q).e, f)
        k = i if len(got.atoms) == len(want.atoms) else unsup('factorisation of the value')
    prove_same_value(name, got.at(k), want.at(i), f)

def atoms_at(out, i, leafs):
    """entries of the operands that occur in the value at i"""
    v = out.at(i); r = {}
    if isinstance(v, (SumV, SumList)): return r
    for l in leafs:
        r[l.name] = apps(tr(v), [l.f]) if l.f is not None else [l.c]
    return r

def run_op(cls, names, domain=None, ref=None, share=False, kw=None, wrts=None, axes=None, after=None, label=None):
    """construct the operation, compute its value and its Jacobian with respect to each operand; everything by the repository's code"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops()
        fname = label or cls.__name__
        F = '%s.%s' % (cls.__module__.replace('chumpy.', ''), fname)
        opnd = {}
        for n in names: opnd[n] = opnd[names[0]] if (share and opnd) else O.operand('v_' + n, axes.get(n) if axes else None)
        node = cls(**dict(opnd, **(kw or {})))
        if after: after(c, m, opnd, node)
        r = node.r
        leafs = {id(o): o.__dict__['_leaf'] for o in opnd.values()}
        if ref is not None:
            want = ref(m['np'], *[opnd[n].x for n in names])
            want = np_atleast_1d(want)
            if want.kind != 'f': want = np_asarray(want, stubs.Float64)
            value_is('the value is numpy\'s', r, want, F + '.compute_r')
        seen = []
        for n in (wrts or names):
            o = opnd[n]
            if any(o is s for s in seen): continue
            seen.append(o)
            node._call_on_changed()
            J = node.compute_dr_wrt(o)
            leaf = leafs[id(o)]
            i = tuple(z3.Int(c.fresh('i')) for _ in r.atoms)
            for x, d in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < d))
            conds = domain(atoms_at(r, i, leafs.values()), n, r.at(i)) if domain else []
            G = F + '.compute_dr_wrt'
            if J is None:
                dv = derivative(r.at(i), leaf, leaf.index())
                prove_eq('no derivative is reported only if it is zero', total(dv), rv(0), G, conds)
                c.cover('absent'); continue
            prove_jacobian_at(J, r, i, leaf, G, conds)
            c.cover('jacobian')
        # an object that is not an operand
        z = m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(z) is None, F + '.compute_dr_wrt')
    return f
def prove_jacobian_at(J, out, i, leaf, func, conds):
    c = ctx(); M = matrix_of(J); j = leaf.index()
    if M is None: return c.prove('the Jacobian is a matrix', False, func)
    M, ii, jj = conform(M, out.atoms, i, leaf.atoms, j, func)
    if M is None: return False
    return same_entry('each entry of the Jacobian is the partial derivative', M.entry(ii, jj), derivative(out.at(i), leaf, j), func, conds)

# ---- where the operations are differentiable (conditions on the entries that feed one result entry)
def on(names, f):
    def g(at, wrt, v):
        out = []
        for n in names:
            for e in at.get('v_' + n, []): out.append(f(e))
        return out
    return g
POS = lambda e: e > 0
NZ = lambda e: e != 0
INV = lambda e: z3.And(e > -1, e < 1)
COSNZ = lambda e: FN['cos'](e) != 0
def distinct(at, wrt, v):
    es = [e for l in at.values() for e in l]
    return [es[0] != es[1]] if len(es) == 2 else []

def two_calls(cls, names, second=None):
    """structure remembered by an earlier operation of any shape does not change the result of a later one"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops()
        F = '%s.%s' % (cls.__module__.replace('chumpy.', ''), cls.__name__)
        a = {n: O.operand('u_' + n) for n in names}
        first = (second or cls)(*[a[n] for n in names])
        r1 = first.r; J1 = {}; before = {}
        i1 = tuple(z3.Int(c.fresh('i')) for _ in r1.atoms)
        for x, d in zip(i1, r1.atoms): c.assume(z3.And(x >= 0, x < d))
        j1 = {n: a[n].__dict__['_leaf'].index() for n in names}
        def snap(n): return total(matrix_of(J1[n]).entry(*at1(n)))
        def at1(n): return conform(matrix_of(J1[n]), r1.atoms, i1, a[n].__dict__['_leaf'].atoms, j1[n], F + '.compute_dr_wrt')[1:]
        for n in names: J1[n] = first.compute_dr_wrt(a[n]); before[n] = snap(n)
        del first
        b = {n: O.operand('v_' + n) for n in names}
        node = cls(**b); r = node.r
        for n in names:
            J = node.compute_dr_wrt(b[n]); leaf = b[n].__dict__['_leaf']
            i = tuple(z3.Int(c.fresh('i')) for _ in r.atoms)
            for x, d in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < d))
            prove_jacobian_at(J, r, i, leaf, F + '.compute_dr_wrt', DOM.get(cls.__name__, lambda *x: [])(atoms_at(r, i, [o.__dict__['_leaf'] for o in b.values()]), n, r.at(i)))
            c.cover('jacobian')
        for n in names: prove_eq('a Jacobian handed out earlier is not altered', before[n], snap(n), F + '.compute_dr_wrt')
    return f
DOM = {}
A = ['machine arithmetic is treated as exact real arithmetic; entries are finite and results do not overflow',
     'numpy: every elementwise function broadcasts its operands by the same projection of positions, which is the identity for equal shapes; contracts in engine/arr.py',
     'scipy: csc_matrix((data, (I, J))) has the given triples (summed), stored by column; a shallow copy shares the stored structure',
     'sizes are at least 1; operand values are arrays of at least one dimension (C11)',
     'calculus: the derivative table of engine/arr.py diff() (sin, cos, tan, arcsin, arccos, arctan, sqrt, exp, log, gamma, power, quotient, product)']
def entries():
    m = mods(); o = m['ops']; E = []
    def add(name, f, cov, props, fns, **k):
        E.append((name, f, cov, dict(dict(props=props, functions=fns, assumptions=A, max_time=200), **k)))
    un = dict(reciprocal=(NZ, None), square=(None, None), sqrt=(POS, None), exp=(None, None), log=(POS, None), sin=(None, None), arcsin=(INV, None), cos=(None, None), arccos=(INV, None), tan=(COSNZ, None), arctan=(None, None), negative=(None, None), absolute=(NZ, None), nan_to_num=(None, None))
    for n, (dom, _) in sorted(un.items()):
        cls = getattr(o, n)
        add(n, run_op(cls, ['x'], on(['x'], dom) if dom else None, ref=lambda np, x, n=n: getattr(np, n)(x)), ('jacobian',), ('C01', 'C10', 'C11'), ['ch_ops.%s.compute_r' % n, 'ch_ops.%s.compute_dr_wrt' % n])
    for n in ('floor', 'ceil', 'sign'):
        cls = getattr(o, n)
        if n == 'sign': d = on(['x'], NZ)
        else: d = None
        add(n, run_op(cls, ['x'], d, ref=lambda np, x, n=n: getattr(np, n)(x)), ('absent',), ('C01', 'C10', 'C11'), ['ch_ops.%s.compute_r' % n, 'ch_ops.%s.compute_dr_wrt' % n])
    bi = dict(add=('a', 'b', None), subtract=('a', 'b', None), multiply=('a', 'b', None), divide=('x1', 'x2', on(['x2'], NZ)), NanDivide=('x1', 'x2', on(['x2'], NZ)), power=('x', 'pow', on(['x'], POS)), maximum=('a', 'b', distinct), minimum=('a', 'b', distinct))
    for n, (p, q, dom) in sorted(bi.items()):
        cls = getattr(o, n); nn = 'divide' if n == 'NanDivide' else n
        if dom: DOM[n] = dom
        fs = ['ch_ops.%s.compute_r' % n, 'ch_ops.%s.compute_dr_wrt' % n] + (['ch_ops._broadcast_matrix'] if n in ('add', 'subtract', 'multiply', 'power') else ['ch_ops._broadcast_setup'])
        add(n, run_op(cls, [p, q], dom, ref=lambda np, x, y, nn=nn: getattr(np, nn)(x, y)), ('jacobian',), ('C01', 'C10', 'C11'), fs, weight=3)
        if n not in ('maximum', 'minimum'):
            add(n + ' of one object with itself', run_op(cls, [p, q], on([p], NZ) if 'ivide' in n else (on([p], POS) if n == 'power' else None), share=True, ref=lambda np, x, y, nn=nn: getattr(np, nn)(x, y)), ('jacobian',) if n in ('add', 'multiply', 'power') else ('absent',), ('C01', 'C10', 'C11'), fs)
        add(n + ' after another operation', two_calls(cls, [p, q]), ('jacobian',), ('C01', 'C11'), fs, weight=9, max_paths=20000)
        if n in ('subtract', 'multiply', 'power', 'add'):
            add(n + ' after a product', two_calls(cls, [p, q], second=o.multiply if n != 'multiply' else o.add), ('jacobian',), ('C01', 'C11'), fs, weight=9, max_paths=20000)
    for n in ('greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal'):
        cls = getattr(o, n)
        add(n, run_op(cls, ['x1', 'x2'], distinct, ref=lambda np, x, y, n=n: getattr(np, n)(x, y)), ('absent',), ('C01', 'C10', 'C11'), ['ch_ops.%s.compute_r' % n, 'ch_ops.%s.compute_dr_wrt' % n])
    lo, hi = z3.Real('lower'), z3.Real('upper')
    def clipdom(at, wrt, v): return [lo < hi] + [z3.And(e != lo, e != hi) for l in at.values() for e in l]
    for k, nm in ((dict(a_min=SymReal(lo), a_max=SymReal(hi)), 'two bounds'),):
        add('clip, ' + nm, run_op(o.clip, ['a'], clipdom, kw=k, ref=lambda np, x: np.clip(x, SymReal(lo), SymReal(hi)), after=lambda c, m, op, nd: c.assume(lo < hi)), ('jacobian',), ('C01', 'C10', 'C11'), ['ch_ops.clip.compute_r', 'ch_ops.clip.compute_dr_wrt'])
    add('gamma', run_op(m['ext'].gamma, ['x'], on(['x'], POS)), ('jacobian',), ('C01', 'C11'), ['extras.gamma.compute_r', 'extras.gamma.compute_dr_wrt'])
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
