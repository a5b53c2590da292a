"""C03: reductions and products, for arrays of ranks 1-3 (dot, tensordot: all rank pairs up to 3) with any dimensions."""
import z3, core, load, stubs, arr, t_ops, t_reord
from core import *
from arr import *
from t_ops import mods, reset, Ops, value_is, prove_jacobian_at, A as A0
from t_reord import dims

def axes_of(rank, tag='n'): return tuple((d,) for d in dims(*['%s%d' % (tag, k) for k in range(rank)]))
def jac(node, o, leaf, F, conds=None):
    c = ctx(); r = node.r
    i = tuple(z3.Int(c.fresh('i')) for _ in r.atoms)
    for x, d in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < d))
    node._call_on_changed()
    J = node.compute_dr_wrt(o)
    if J is None: c.prove('a derivative is reported', False, F); return None
    prove_jacobian_at(J, r, i, leaf, F, conds or [])
    return J, i
def remember(got, leaf, F):
    """an entry of a Jacobian that was handed out, to be compared later"""
    J, i = got; M = matrix_of(J); j = leaf.index()
    try:
        at = conform(M, M.ra, i if len(i) == len(M.ra) else fresh_idx(M.ra), M.ca, j if len(j) == len(M.ca) else fresh_idx(M.ca), F)[1:]
        return M, at, total(M.entry(*at))
    except Unsupported: return None
def unaltered(mem, F):
    if mem is None: return
    M, at, before = mem
    prove_eq('a Jacobian handed out earlier is not altered', total(M.entry(*at)), before, F)

def reduction(name, rank, axis, ref, F, opaque=False, has_axis=True, dn='x'):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops()
        cls = getattr(m['ops'], name)
        x = O.operand('v_x', None if opaque else axes_of(rank)); leaf = x.__dict__['_leaf']
        if not has_axis: node = cls(x)
        elif axis is None and c.choose(2): node = cls(x)       # the axis left to default
        else: node = cls(x, axis=axis)
        value_is('the value is numpy\'s', node.r, np_atleast_1d(ref(x.x, axis)), F + '.compute_r')
        got = jac(node, x, leaf, F + '.compute_dr_wrt')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
        c.cover('first')
        if got is None: return
        mem = remember(got, leaf, F + '.compute_dr_wrt')
        what = c.choose(4); ax = axis
        if what in (1, 3): leaf = Leaf('w_x', OShape(['W_shape']) if opaque else axes_of(rank, 'm')); x.x = leaf.arr(ro=False)
        if what in (2, 3) and has_axis:
            if opaque: return
            opts = [None] + list(range(-rank, rank))
            ax = opts[c.choose(len(opts))]
            if name == 'cumsum' and ax is not None: return
            node.axis = ax
        if what == 0: leaf = Leaf('w_x', x.__dict__['_leaf'].axes); x.x = leaf.arr(ro=False)
        value_is('the value is numpy\'s after a change', node.r, np_atleast_1d(ref(x.x, ax)), F + '.compute_r')
        jac(node, x, leaf, F + '.compute_dr_wrt')
        unaltered(mem, F + '.compute_dr_wrt')
        c.cover('after a change')
    return f

def product(make, ref, F, ra, rb, ka, kb, share=False):
    """two arrays of ranks ra and rb; axis ka of the first has the length of axis kb of the second"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops()
        def shapes(t):
            A = axes_of(ra, t + 'a')
            if share: A = (A[0],) * ra
            B = list(axes_of(rb, t + 'b')); B[kb] = A[ka]; return A, tuple(B)
        A, B = shapes('n')
        a = O.operand('v_a', A)
        if share:
            B = A; b = a
        else: b = O.operand('v_b', B)
        node = make(m, a, b)
        value_is('the value is numpy\'s', node.r, np_atleast_1d(ref(a.x, b.x)), F + '.compute_r')
        la, lb = a.__dict__['_leaf'], b.__dict__['_leaf']
        got = jac(node, a, la, F + '.compute_dr_wrt'); mem = remember(got, la, F) if got else None
        if not share: jac(node, b, lb, F + '.compute_dr_wrt')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
        c.cover('first')
        # new values, then also new shapes
        if c.choose(2): A, B = shapes('m')
        la = Leaf('w_a', A); a.x = la.arr(ro=False)
        if share: lb = la
        else: lb = Leaf('w_b', B); b.x = lb.arr(ro=False)
        value_is('the value is numpy\'s after a change', node.r, np_atleast_1d(ref(a.x, b.x)), F + '.compute_r')
        jac(node, a, la, F + '.compute_dr_wrt')
        if not share: jac(node, b, lb, F + '.compute_dr_wrt')
        unaltered(mem, F)
        c.cover('after a change')
    return f

def e_cross(share):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch_ops.Cross'
        n = dims('n')[0]; A = ((n,), (z3.IntVal(3),))
        a = O.operand('v_a', A); b = a if share else O.operand('v_b', A)
        node = m['ops'].cross(a, b)
        value_is('the value is numpy\'s', node.r, np_cross(a.x, b.x), F + '.compute_r')
        def both(la, lb):
            if share: jac(node, a, la, F + '.compute_dr_wrt')
            else: jac(node, a, la, F + '.compute_dr_wrt'); jac(node, b, lb, F + '.compute_dr_wrt')
        both(a.__dict__['_leaf'], b.__dict__['_leaf']); c.cover('first')
        k = dims('k')[0]; A = ((k,), (z3.IntVal(3),)) if c.choose(2) else A
        la = Leaf('w_a', A); a.x = la.arr(ro=False); lb = la
        if not share: lb = Leaf('w_b', A); b.x = lb.arr(ro=False)
        value_is('the value is numpy\'s after a change', node.r, np_cross(a.x, b.x), F + '.compute_r')
        both(la, lb); c.cover('after a change')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
    return f

def e_matvec(rank, sparse):
    """a constant matrix times the entries of an array"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.MatVecMult'
        def mat(t, axes, rows):
            ca = tuple(a for g in axes for a in g); ra = rows
            M = z3.Function('M' + t, *([z3.IntSort()] * (len(ra) + len(ca)) + [R]))
            if sparse: return SMat(ra, ca, [lambda i, j: [(z3.BoolVal(True), M(*(tuple(i) + tuple(j))))]])
            return SArr((ra, ca), lambda i: M(*i))
        def shape(t):
            axes = axes_of(rank, t); p = dims('p' + t)[0]
            return axes, ((p,) if rank < 2 else (p, axes[1][0]) if valid(axes[1][0] > 1) or True else None)
        axes, rows = shape('n')
        if rank > 1:
            if c.choose(2): c.assume(axes[1][0] == 1); rows = rows[:1]
            else: c.assume(axes[1][0] > 1)
        v = O.operand('v_v', axes); M1 = mat('1', axes, rows)
        node = m['ch'].MatVecMult(M1, v) if False else m['ch'].MatVecMult(mtx=M1, vec=v)
        def want(M, leaf):
            x = leaf.arr(); k = len(rows)
            def f(i):
                w = fresh_idx(leaf.atoms)
                e = (tr(M.at(tuple(i) + w)) if isinstance(M, SArr) else total(M.entry(tuple(i), w))) * tr(x.at(w))
                return SumV(w, leaf.atoms, e)
            return SArr(tuple((d,) for d in rows), f)
        value_is('the value is the product', node.r, want(M1, v.__dict__['_leaf']), F + '.compute_r')
        jac(node, v, v.__dict__['_leaf'], F + '.compute_dr_wrt'); c.cover('first')
        l2 = Leaf('w_v', axes); v.x = l2.arr(ro=False)
        M2 = mat('2', axes, rows)
        if c.choose(2): node.mtx = M2; M1 = M2
        value_is('the value is the product after a change', node.r, want(M1, l2), F + '.compute_r')
        jac(node, v, l2, F + '.compute_dr_wrt'); c.cover('after a change')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
    return f

def np_tensordot_def(a, b, xa, xb):
    """numpy's definition: the sum over the paired axes of the products of entries; remaining axes of a, then of b"""
    a, b = frozen(a), frozen(b); na, nb = len(a.axes), len(b.axes)
    xa = [k % na for k in xa]; xb = [k % nb for k in xb]
    ra = [k for k in range(na) if k not in xa]; rb = [k for k in range(nb) if k not in xb]
    dims_ = tuple(d for k in xa for d in a.axes[k])
    def f(i):
        v = fresh_idx(dims_); ia = [None] * na; ib = [None] * nb
        for k, p, q in zip(range(len(xa)), xa, xb): ia[p] = v[k]; ib[q] = v[k]
        for k, p in enumerate(ra): ia[p] = i[k]
        for k, p in enumerate(rb): ib[p] = i[len(ra) + k]
        e = tr(a.at(tuple(ia))) * tr(b.at(tuple(ib)))
        return SumV(v, dims_, e) if v else e
    return SArr(tuple(a.axes[k] for k in ra) + tuple(b.axes[k] for k in rb), f)
def e_tensordot(ra, rb, xa, xb, spec, share=False):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'np_tensordot.tensordot'
        A = axes_of(ra, 'a'); B = list(axes_of(rb, 'b'))
        for p, q in zip(xa, xb): B[q] = A[p]
        a, b = O.operand('v_a', A), O.operand('v_b', tuple(B))
        node = m['ops'].tensordot(a, b, spec) if spec != 2 or c.choose(2) else m['ops'].tensordot(a, b)
        value_is('the value is numpy\'s', node.r, np_atleast_1d(np_tensordot_def(a.x, b.x, xa, xb)), F)
        # the derivatives follow from those of the operations it is built of, by the chain rule (C05)
        ok = {'Reshape', 'transpose', 'dot'}; st = [node]; seen = []; hit = set(); other = []
        while st:
            n = st.pop()
            if n is a or n is b: hit.add(id(n)); continue
            seen.append(n)
            if type(n).__name__ not in ok: other.append(type(n).__name__)
            st += [getattr(n, d) for d in n.dterms]
        if other: unsup('built of operations other than reshape, transpose and dot:', *other)
        c.prove('depends on both operands', hit == {id(a), id(b)}, F)
        c.cover('done')
    return f

A = A0[:1] + ['numpy: sum, mean, cumsum, dot, cross, rollaxis, tile, repeat, kron by their entrywise definitions (engine/arr.py)', 'numpy: amax(a, axis) is the entry of a at argmax(a, axis), the same position for equal arrays; the extremal entry is unique, so its position does not move under small changes',
     'entries are finite (nanmax and nanmin are then max and min)', 'sizes are at least 1', 'the change callback is told the names of changed inputs (C09)']
def entries():
    m = mods(); E = []
    def add(name, f, cov, fns, **k): E.append((name, f, cov, dict(dict(props=('C03', 'C10', 'C08', 'C07', 'C11'), functions=fns, assumptions=A, max_time=200), **k)))
    for nm, ref in (('sum', np_sum), ('mean', np_mean)):
        fns = ['ch_ops.%s.%s' % (nm, s) for s in ('compute_r', 'compute_dr_wrt', 'on_changed')]
        add('%s of everything, any shape' % nm, reduction(nm, 0, None, ref, 'ch_ops.' + nm, opaque=True), ('first', 'after a change'), fns)
        for rank in (1, 2, 3):
            for ax in [None] + list(range(-rank, rank)):
                add('%s, rank %d, axis %s' % (nm, rank, ax), reduction(nm, rank, ax, ref, 'ch_ops.' + nm), ('first', 'after a change'), fns, bounded='rank %d, any dimensions' % rank, weight=2)
    add('sum of squares, any shape', reduction('SumOfSquares', 0, None, lambda x, ax: np_sum(x * x), 'ch_ops.SumOfSquares', opaque=True, has_axis=False), ('first', 'after a change'), ['ch_ops.SumOfSquares.compute_r', 'ch_ops.SumOfSquares.compute_dr_wrt'])
    add('cumsum, any shape', reduction('cumsum', 0, None, np_cumsum, 'ch_ops.cumsum', opaque=True), ('first', 'after a change'), ['ch_ops.cumsum.compute_r', 'ch_ops.cumsum.compute_dr_wrt'])
    for nm, ref in (('amax', np_amax), ('amin', np_amin), ('nanmax', np_nanmax), ('nanmin', np_nanmin)):
        fns = ['ch_ops.A_extremum.%s' % s for s in ('compute_r', 'compute_dr_wrt', '_stride_for_axis', 'on_changed')] + ['ch_ops.%s.f' % nm, 'ch_ops.%s.argf' % nm]
        add('%s of everything, any shape' % nm, reduction(nm, 0, None, ref, 'ch_ops.' + nm, opaque=True), ('first', 'after a change'), fns)
        for rank in (1, 2, 3):
            for ax in [None] + list(range(-rank, rank)):
                add('%s, rank %d, axis %s' % (nm, rank, ax), reduction(nm, rank, ax, ref, 'ch_ops.' + nm), ('first', 'after a change'), fns, bounded='rank %d, any dimensions' % rank, weight=2)
    fns = ['ch_ops.dot.compute_r', 'ch_ops.dot.compute_d1', 'ch_ops.dot.compute_d2', 'ch_ops.dot.compute_dr_wrt']
    for ra in (1, 2, 3):
        for rb in (1, 2, 3):
            add('dot, ranks %d and %d' % (ra, rb), product(lambda m, a, b: m['ops'].dot(a, b), np_dot, 'ch_ops.dot', ra, rb, ra - 1, rb - 1 if rb == 1 else rb - 2), ('first', 'after a change'), fns, bounded='ranks %d and %d, any dimensions' % (ra, rb), weight=2)
    add('cross, (n,3) arrays', e_cross(False), ('first', 'after a change'), ['ch_ops.Cross.compute_r', 'ch_ops.Cross.compute_dr_wrt', 'ch_ops.Cross._load_crossprod_cache', 'ch_ops.cross'])
    add('cross of one object with itself', e_cross(True), ('first', 'after a change'), ['ch_ops.Cross.compute_dr_wrt'])
    for rk in (1, 2): add('dot of one object with itself, rank %d' % rk, product(lambda m, a, b: m['ops'].dot(a, b), np_dot, 'ch_ops.dot', rk, rk, rk - 1, 0, share=True), ('first', 'after a change'), fns, bounded='rank %d, any dimensions' % rk)
    for rk in (1, 2):
        for spm in (False, True): add('constant %s matrix times an array of rank %d' % ('sparse' if spm else 'dense', rk), e_matvec(rk, spm), ('first', 'after a change'), ['ch.MatVecMult.compute_r', 'ch.MatVecMult.compute_dr_wrt'], bounded='rank %d, any dimensions' % rk)
    import itertools
    T = ['np_tensordot.tensordot']
    for ra in (1, 2, 3):
        for rb in (1, 2, 3):
            for n in range(0, min(ra, rb) + 1):
                if n == ra == rb == 3: continue
                add('tensordot, ranks %d and %d, axes=%d' % (ra, rb, n), e_tensordot(ra, rb, list(range(ra - n, ra)), list(range(n)), n), ('done',), T, bounded='ranks %d and %d, any dimensions' % (ra, rb))
            for n in range(1, min(ra, rb) + 1):
                for xa in itertools.permutations(range(ra), n):
                    for xb in itertools.combinations(range(rb), n):
                        if n == 3: continue
                        neg = (sum(xa) + sum(xb)) % 2
                        sa = [k - ra if neg else k for k in xa]; sb = [k - rb if neg else k for k in xb]
                        add('tensordot, ranks %d and %d, axes %s and %s' % (ra, rb, sa, sb), e_tensordot(ra, rb, list(xa), list(xb), (sa, sb)), ('done',), T, bounded='ranks %d and %d, any dimensions' % (ra, rb))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
