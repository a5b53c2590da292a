"""C02: operations that only move, repeat or drop entries, for arrays of any shape and any arguments."""
import z3, core, load, stubs, arr, t_ops
from core import *
from arr import *
from t_ops import mods, reset, Ops, value_is, prove_jacobian_at, A as A0

def jac(node, o, leaf, F, r=None):
    c = ctx(); r = r if r is not None else node.r
    i = tuple(z3.Int(c.fresh('i')) for _ in r.atoms)
    for x, d in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < d))
    node._call_on_changed()
    J = node.compute_dr_wrt(o)
    if J is None: c.prove('a derivative is reported', False, F); return
    prove_jacobian_at(J, r, i, leaf, F, [])
    return J, i
def setx(o, name, axes=None):
    """assign a new value (of another shape) to the variable"""
    l = Leaf(name, axes or OShape([name.upper() + '_shape'])); o.x = l.arr(ro=False); return l

def reorder(make, args, ref, F, change=True):
    """make(x, **args): the operation; then the array (its shape too), and each argument, are changed and everything is asked again"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops()
        x = O.operand('v_a'); leaf = x.__dict__['_leaf']
        a1 = {k: SymArg(k + '_1') if v == 'sym' else v for k, v in args.items()}
        node = make(m, x, **a1)
        op = node
        value_is('the value is numpy\'s', node.r, np_atleast_1d(ref(m['np'], x.x, **a1)), F + '.compute_r')
        J1, i1 = jac(node, x, leaf, F + '.compute_dr_wrt')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
        c.cover('first')
        if not change: return
        what = c.choose(2 + len([v for v in args.values() if v == 'sym']))
        j1 = leaf.index(); M = matrix_of(J1)
        a2 = dict(a1); before = None
        try: before = total(M.entry(*conform(M, node.r.atoms, i1, leaf.atoms, j1, F)[1:]))
        except Unsupported: pass
        if what == 0: pass
        elif what == 1: leaf = setx(x, 'w_a')
        else:
            k = [k for k, v in sorted(args.items()) if v == 'sym'][what - 2]
            a2[k] = SymArg(k + '_2'); setattr(op, k, a2[k])
            if c.choose(2): leaf = setx(x, 'w_a')
        value_is('the value is numpy\'s after a change', node.r, np_atleast_1d(ref(m['np'], x.x, **a2)), F + '.compute_r')
        jac(node, x, leaf, F + '.compute_dr_wrt')
        if before is not None: prove_eq('a Jacobian handed out earlier is not altered', total(M.entry(*conform(M, M.ra, i1, M.ca, j1, F)[1:])), before, F + '.compute_dr_wrt')
        c.cover('after a change')
    return f

def e_getitem():
    """x[key], then the variable changes (same or other shape) or the index attribute is replaced"""
    c = ctx(); m = mods(); reset(); O = Ops()
    x = O.operand('v_a'); leaf = x.__dict__['_leaf']; F = 'reordering.Select'
    key = SymArg('key')
    y = x[key]
    value_is('the value is numpy\'s', y.r, x.x[key], 'ch.Ch.__getitem__')
    jac(y, x, leaf, F + '.compute_dr_wrt'); c.cover('first')
    w = c.choose(3)
    if w == 0:
        l2 = Leaf('w_a', x.__dict__['_leaf'].axes); x.x = l2.arr(ro=False)
        value_is('the value is numpy\'s after a change', y.r, x.x[key], F + '.compute_r'); jac(y, x, l2, F + '.compute_dr_wrt'); c.cover('values')
    elif w == 1:
        # another shape, for which the remembered positions are still valid
        l2 = setx(x, 'w_a'); c.assume(l2.axes.size() >= leaf.axes.size())
        r = y.r; jac(y, x, l2, F + '.compute_dr_wrt'); c.cover('shape')
    else:
        n = z3.Int('new_count'); c.assume(n >= 1); g = z3.Function('new_positions', z3.IntSort(), z3.IntSort())
        y2 = m['reo'].Select(a=x, idxs=np_arange(SymInt(n))) if False else y
        def at(i):
            c.assume(z3.Implies(z3.And(i[0] >= 0, i[0] < n), z3.And(g(i[0]) >= 0, g(i[0]) < leaf.axes.size()))); return g(i[0])
        y.idxs = SArr(((n,),), at, kind='i'); del y.__dict__['preferred_shape']
        jac(y, x, leaf, F + '.compute_dr_wrt'); c.cover('positions')
    c.cover('done')
def e_select_of_select():
    c = ctx(); m = mods(); reset(); O = Ops()
    x = O.operand('v_a'); k1, k2 = SymArg('key1'), SymArg('key2')
    y = x[k1]; z = y[k2]
    value_is('the value is numpy\'s', z.r, x.x[k1][k2], 'ch.Ch.__getitem__')
    # the derivative of the outer selection with respect to the inner one
    ly = Leaf('inner', OShape(['inner_shape']))
    jac(y, x, x.__dict__['_leaf'], 'reordering.Select.compute_dr_wrt')
    c.prove('no derivative with respect to the variable behind the inner selection', z.compute_dr_wrt(x) is None, 'reordering.Select.compute_dr_wrt')
    c.cover('done')

def dims(*names):
    c = ctx(); out = []
    for n in names:
        d = z3.Int(n); c.assume(d >= 1); out.append(d)
    return out
def concat(rank, nterms, axis, via):
    """nterms arrays of the given rank, all aliasings, any sizes; then one of them changes its length"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'reordering.Concatenate'
        common = [dims('n%d' % k)[0] for k in range(rank)]; ax = axis % rank
        objs = []; sizes = []
        for k in range(nterms):
            pick = c.choose(len(set(map(id, objs))) + 1) if objs else 0
            uniq = []
            for o in objs:
                if not any(o is u for u in uniq): uniq.append(o)
            if pick: objs.append(uniq[pick - 1]); continue
            d = dims('len%d' % k)[0]
            axes = tuple(((d,) if q == ax else (common[q],)) for q in range(rank))
            objs.append(O.operand('v_m%d' % k, axes))
        node = m['reo'].concatenate(list(objs), axis=axis) if via == 'function' else m['ch'].Ch  # public function
        uniq = []
        for o in objs:
            if not any(o is u for u in uniq): uniq.append(o)
        value_is('the value is numpy\'s', node.r, np_concatenate([o.x for o in objs], axis), F + '.compute_r')
        def all_jac(leaf_of):
            for o in uniq: jac_concat(node, o, leaf_of(o), F + '.compute_dr_wrt')
        all_jac(lambda o: o.__dict__['_leaf'])
        c.cover('first')
        c.prove('no derivative with respect to anything else', node.compute_dr_wrt(m['ch'].Ch(Leaf('other', OShape(['other_shape'])).arr(ro=False))) is None, F + '.compute_dr_wrt')
        if c.choose(2):
            # another length of the first term
            o = uniq[0]; d = dims('newlen')[0]
            l2 = Leaf('w_m0', tuple(((d,) if q == ax else (common[q],)) for q in range(rank)))
            o.x = l2.arr(ro=False)
            value_is('the value is numpy\'s after a change', node.r, np_concatenate([p.x for p in objs], axis), F + '.compute_r')
            all_jac(lambda p: l2 if p is o else p.__dict__['_leaf']); c.cover('after a change')
        elif len(uniq) > 1 and c.choose(2):
            # an operand is replaced by a new object of another length
            d = dims('newlen')[0]; axes = tuple(((d,) if q == ax else (common[q],)) for q in range(rank))
            new = O.operand('w_new', axes); nm = node.dterms[0]
            setattr(node, nm, new); objs2 = [new] + objs[1:]
            value_is('the value is numpy\'s after a replacement', node.r, np_concatenate([p.x for p in objs2], axis), F + '.compute_r')
            for o in set(objs2): jac_concat(node, o, o.__dict__['_leaf'], F + '.compute_dr_wrt')
            if not any(objs[0] is o for o in objs[1:]): c.prove('no derivative with respect to an operand that was replaced', node.compute_dr_wrt(objs[0]) is None, F + '.compute_dr_wrt')
    return f
def jac_concat(node, o, leaf, F):
    """row by row: which term the row comes from"""
    c = ctx(); r = node.r
    i = tuple(z3.Int(c.fresh('i')) for _ in r.atoms)
    for x, d in zip(i, r.atoms): c.assume(z3.And(x >= 0, x < d))
    node._call_on_changed()
    J = node.compute_dr_wrt(o)
    if J is None: c.prove('a derivative is reported', False, F); return
    prove_jacobian_at(J, r, i, leaf, F, [])
    r2 = node.compute_dr_wrt(o)
    if r2 is not J and r2 is not None: prove_jacobian_at(r2, r, i, leaf, F, [])

def stack(kind, rank, n):
    """hstack / vstack / dstack and nested concatenations: the value, and the derivative by each direct operand"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'reordering.' + kind; R = m['reo']
        ax = {'vstack': 0, 'dstack': 2, 'hstack': 0 if rank < 2 else 1, 'concatenate': 0}[kind]
        grow = {'concatenate': rank - 1, 'vstack': 0 if rank > 1 else None, 'dstack': 2 if rank > 2 else None, 'hstack': ax if rank else None}[kind]
        common = [dims('n%d' % k)[0] for k in range(rank)]
        objs = []
        for k in range(n):
            axes = tuple((((dims('len%d' % k)[0]),) if q == grow else (common[q],)) for q in range(rank))
            objs.append(O.operand('v_m%d' % k, axes))
        node = getattr(R, kind)(list(objs) if c.choose(2) else tuple(objs), **(dict(axis=None) if kind == 'concatenate' else {}))
        up = {'vstack': np_atleast_2d, 'dstack': np_atleast_3d, 'hstack': np_atleast_1d, 'concatenate': lambda a: a.ravel()}[kind]
        want = np_concatenate([up(o.x) for o in objs], ax)
        value_is('the value is numpy\'s', node.r, want, F)
        i = tuple(z3.Int(c.fresh('i')) for _ in want.atoms)
        for x, d in zip(i, want.atoms): c.assume(z3.And(x >= 0, x < d))
        terms = [getattr(node, t) for t in node.dterms]
        if len(terms) != n: unsup('operands are not the arrays themselves')
        for t, o in zip(terms, objs):
            leaf = o.__dict__['_leaf']
            if t is not o and not (type(t).__name__ == 'AtleastNd' and t.x is o) and not (type(t).__name__ == 'Reshape' and t.a is o): unsup('operands are not the arrays themselves')
            J = node.compute_dr_wrt(t)
            if J is None: c.prove('a derivative is reported', False, F); continue
            prove_jacobian_at(J, want, i, leaf, F, [])     # reshaping keeps the flat position, so the entry is the same
        c.cover('done')
    return f
def nested(rank, axis, axis2):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'reordering.expand_concatenates'; R = m['reo']
        common = [dims('n%d' % k)[0] for k in range(rank)]
        def mk(nm, var): return O.operand('v_' + nm, tuple((common[q],) if q != var else ((dims('len_' + nm)[0]),) for q in range(rank)))
        if axis == axis2: a, b, e = mk('a', axis), mk('b', axis), mk('e', axis)
        else: a, b, e = mk('a', axis2), mk('b', axis2), None
        inner = R.concatenate([a, b], axis=axis2)
        if e is None: e = O.operand('v_e', tuple(((inner.r.axes[q]) if q != axis else (dims('len_e')[0],)) for q in range(rank)))
        first = c.choose(2)
        outer = R.concatenate([inner, e] if first else [e, inner], axis=axis)
        iv_ = np_concatenate([a.x, b.x], axis2)
        value_is('the value is numpy\'s', outer.r, np_concatenate([iv_, e.x] if first else [e.x, iv_], axis), F)
        J = jac(outer, e, e.__dict__['_leaf'], F)
        if axis == axis2:
            for o in (a, b): jac(outer, o, o.__dict__['_leaf'], F)
        c.cover('done')
    return f

A = A0[:1] + ['numpy: a rearranging function gives, for arrays of one shape and one set of arguments, always the same selection of positions (contract natural() in engine/arr.py), 0 where it fills', 'numpy: sort(a) = take_along_axis(a, argsort(a))',
     'an argument enters a key by its contents', 'the change callback is told the names of changed inputs (C09)', 'sizes are at least 1']
def entries():
    m = mods(); E = []; R = m['reo']; ch = m['ch']
    def add(name, f, cov, fns, **k): E.append((name, f, cov, dict(dict(props=('C02', 'C10', 'C08', 'C07', 'C11'), functions=fns, assumptions=A, max_time=200), **k)))
    B = ['reordering.Reorder.compute_dr_wrt', 'reordering.Reorder.compute_r', 'reordering.Reorder.on_changed']
    def ro(name, make, args, ref, fns): add(name, reorder(make, args, ref, fns[0].rsplit('.', 1)[0]), ('first', 'after a change'), fns + B)
    ro('tile', lambda m, x, reps: m['reo'].tile(x, reps), dict(reps='sym'), lambda np, a, reps: np.tile(a, reps), ['reordering.Tile.reorder', 'reordering.Tile.unique_reorder_id'])
    ro('diag', lambda m, x, k: m['reo'].diag(x, k), dict(k='sym'), lambda np, a, k: np.diag(a, k), ['reordering.Diag.reorder', 'reordering.Diag.unique_reorder_id'])
    ro('diagflat', lambda m, x, k: m['reo'].diagflat(x, k), dict(k='sym'), lambda np, a, k: np.diagflat(a, k), ['reordering.DiagFlat.reorder', 'reordering.DiagFlat.unique_reorder_id'])
    ro('repeat', lambda m, x, repeats, axis: m['reo'].repeat(x, repeats, axis), dict(repeats='sym', axis='sym'), lambda np, a, repeats, axis: np.repeat(a, repeats, axis), ['reordering.Repeat.reorder', 'reordering.Repeat.unique_reorder_id'])
    ro('transpose', lambda m, x, axes: m['reo'].transpose(x, axes), dict(axes='sym'), lambda np, a, axes: np.transpose(a, axes), ['reordering.transpose.reorder', 'reordering.transpose.unique_reorder_id'])
    ro('transpose without axes', lambda m, x: m['reo'].transpose(x), {}, lambda np, a: np.transpose(a), ['reordering.transpose.reorder', 'reordering.transpose.on_changed'])
    ro('T', lambda m, x: x.T, {}, lambda np, a: np.transpose(a), ['ch.Ch.T', 'reordering.transpose.reorder'])
    ro('rollaxis', lambda m, x, axis, start: m['reo'].rollaxis(x, axis, start), dict(axis='sym', start='sym'), lambda np, a, axis, start: np.rollaxis(a, axis, start), ['reordering.rollaxis.reorder', 'reordering.rollaxis.unique_reorder_id'])
    ro('rollaxis without start', lambda m, x, axis: m['reo'].rollaxis(x, axis), dict(axis='sym'), lambda np, a, axis: np.rollaxis(a, axis), ['reordering.rollaxis.reorder', 'reordering.rollaxis.on_changed'])
    ro('swapaxes', lambda m, x, axis1, axis2: m['reo'].swapaxes(x, axis1, axis2), dict(axis1='sym', axis2='sym'), lambda np, a, axis1, axis2: np.swapaxes(a, axis1, axis2), ['reordering.swapaxes.reorder', 'reordering.swapaxes.unique_reorder_id'])
    ro('roll', lambda m, x, shift, axis: m['reo'].roll(x, shift, axis), dict(shift='sym', axis='sym'), lambda np, a, shift, axis: np.roll(a, shift, axis), ['reordering.Roll.reorder', 'reordering.Roll.unique_reorder_id'])
    ro('rot90', lambda m, x, k: m['reo'].rot90(x, k), dict(k='sym'), lambda np, a, k: np.rot90(a, k), ['reordering.Rot90.reorder', 'reordering.Rot90.unique_reorder_id'])
    ro('sort', lambda m, x, axis: m['reo'].sort(x, axis), dict(axis='sym'), lambda np, a, axis: np.sort(a, axis, 'quicksort', None), ['reordering.Sort.reorder', 'reordering.Sort.compute_dr_wrt'])
    ro('reshape', lambda m, x, newshape: m['reo'].reshape(x, newshape), dict(newshape='sym'), lambda np, a, newshape: np.reshape(a, newshape), ['reordering.Reshape.compute_r', 'reordering.Reshape.compute_dr_wrt'])
    ro('ravel', lambda m, x: x.ravel(), {}, lambda np, a: np.ravel(a), ['ch.Ch.ravel', 'reordering.Reshape.compute_r'])
    for n in (1, 2, 3):
        ro('atleast_%dd' % n, lambda m, x, n=n: getattr(m['reo'], 'atleast_%dd' % n)(x), {}, lambda np, a, n=n: getattr(np, 'atleast_%dd' % n)(a), ['reordering.AtleastNd.compute_r', 'reordering.AtleastNd.compute_dr_wrt', 'reordering.atleast_nd'])
    ro('flipud', lambda m, x: m['reo'].flipud(x), {}, lambda np, a: a[::-1, ...], ['reordering.flipud'])
    E[-1] = (E[-1][0], reorder(lambda m, x: m['reo'].flipud(x), {}, lambda np, a: a[::-1, ...], 'reordering.flipud', change=False), ('first',), E[-1][3])
    add('fliplr', reorder(lambda m, x: m['reo'].fliplr(x), {}, lambda np, a: a[:, ::-1], 'reordering.fliplr', change=False), ('first',), ['reordering.fliplr'])
    add('squeeze', reorder(lambda m, x: m['reo'].squeeze(x), {}, lambda np, a: np.squeeze(a), 'reordering.squeeze', change=False), ('first',), ['reordering.squeeze'])
    add('expand_dims', reorder(lambda m, x, axis: m['reo'].expand_dims(x, axis), dict(axis='sym'), lambda np, a, axis: np.expand_dims(a, axis), 'reordering.expand_dims', change=False), ('first',), ['reordering.expand_dims'])
    add('indexing', e_getitem, ('values', 'shape', 'positions'), ['ch.Ch.__getitem__', 'reordering.Select.compute_r', 'reordering.Select.compute_dr_wrt', 'reordering.Select.on_changed'])
    add('indexing twice', e_select_of_select, ('done',), ['ch.Ch.__getitem__', 'reordering.Select.compute_r', 'reordering.Select.compute_dr_wrt'])
    for rank in (1, 2, 3):
        for ax in range(-rank, rank):
            for n in ((1, 2, 3) if rank < 3 else (2,)):
                if ax < 0 and n != 2: continue
                add('concatenate %d arrays of rank %d along axis %d' % (n, rank, ax), concat(rank, n, ax, 'function'), ('first', 'after a change'), ['reordering.Concatenate.compute_r', 'reordering.Concatenate.compute_dr_wrt', 'reordering.Concatenate.on_changed', 'reordering.concatenate'], bounded='%d terms, rank %d, any sizes' % (n, rank), weight=3)
    for kind in ('hstack', 'vstack', 'dstack', 'concatenate'):
        for rank in (1, 2, 3):
            for n in ((1, 2, 3) if kind != 'concatenate' or rank == 1 else (1,)): add('%s of %d arrays of rank %d' % (kind if kind != 'concatenate' else 'flattening concatenation', n, rank), stack(kind, rank, n), ('done',), ['reordering.' + kind, 'reordering.concatenate', 'reordering.expand_concatenates', 'reordering.atleast_nd'], bounded='%d terms, rank %d, any sizes' % (n, rank))
    for rank in (1, 2):
        for a1 in range(rank):
            for a2 in range(rank): add('concatenation (axis %d) within a concatenation (axis %d), rank %d' % (a2, a1, rank), nested(rank, a1, a2), ('done',), ['reordering.expand_concatenates', 'reordering.concatenate'], bounded='rank %d, any sizes' % rank)
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
