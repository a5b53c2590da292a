"""C10, C11, C05, C21: operators, methods, module level wrappers and constructors; how arguments reach the operations."""
import operator, z3, core, load, stubs, arr, t_ops, gc
from core import *
from arr import *
from t_ops import mods, reset, Ops, value_is, A as A0
from t_red import axes_of, jac

R1 = z3.Real('number')
def plain(kind, name='w'):
    """an operand that is not an object of the library: (what is given, its array)"""
    if kind == 'array': a = Leaf(name, OShape([name.upper() + '_shape'])).arr(ro=False); return a, a
    if kind == 'number': n = SymReal(z3.Real(name)); return n, asarr(n)
    if kind == 'integer': n = SymInt(z3.Int(name)); return n, asarr(n)
KINDS = ('object', 'array', 'number', 'integer')
def binary(sym, op, ref, dunder):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); np = m['np']
        side = c.choose(2); kind = KINDS[c.choose(4)]
        x = O.operand('v_x')
        if kind == 'object': other = x if c.choose(2) else O.operand('v_y'); ov = other.x
        else: other, ov = plain(kind)
        F = 'ch.Ch.' + dunder[side]
        c.prove('numpy arrays give way to the operators of the library', getattr(m['ch'].Ch, '__array_priority__', 0) > 0, 'ch.Ch.__array_priority__')
        y = op(other, x) if side else op(x, other)
        if not hasattr(y, 'compute_r'): return c.prove('the value is an object of the library', False, F)
        want = getattr(np, ref)(ov, x.x) if side else getattr(np, ref)(x.x, ov)
        want = np_asarray(np_atleast_1d(want), stubs.Float64)
        value_is("the value is numpy's", y.r, want, F)
        c.cover('%s %d' % (kind, side))
    return f
def old_division(which):
    """the operator methods of Python 2 division"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); x, y = O.operand('v_x'), O.operand('v_y')
        F = 'ch.Ch.' + which
        h = getattr(m['ch'].Ch, which, None)
        if h is None: c.cover('done'); return
        r = h(x, y)
        value_is("the value is numpy's", r.r, m['np'].divide(y.x, x.x) if which == '__rdiv__' else m['np'].divide(x.x, y.x), F); c.cover('done')
    return f
def unary(call, ref, F):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); x = O.operand('v_x')
        y = call(m, x)
        value_is("the value is numpy's", y.r, np_asarray(np_atleast_1d(ref(m['np'], x.x)), stubs.Float64), F); c.cover('done')
        l = Leaf('w_x', OShape(['W_shape'])); c.cover('first'); x.x = l.arr(ro=False)
        value_is("the value is numpy's", y.r, np_asarray(np_atleast_1d(ref(m['np'], x.x)), stubs.Float64), F)
    return f
def reducer(name, ref, ranks=(1, 2, 3)):
    """x.name(axis), for each rank and axis, given by position, by keyword or not at all"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.' + name
        rank = ranks[c.choose(len(ranks))]; x = O.operand('v_x', axes_of(rank))
        ax = ([None] + list(range(-rank, rank)))[c.choose(2 * rank + 1)]
        how = c.choose(2) if ax is not None else c.choose(3)
        y = getattr(x, name)(ax) if how == 0 else getattr(x, name)(axis=ax) if how == 1 else getattr(x, name)()
        value_is("the value is numpy's", y.r, np_atleast_1d(ref(x.x, ax)), F); c.cover('done')
    return f
def e_dot():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.dot'
    ra, rb = 1 + c.choose(2), 1 + c.choose(2)
    A = axes_of(ra, 'a'); B = list(axes_of(rb, 'b')); B[0] = A[-1]
    x = O.operand('v_x', A)
    if c.choose(2): y = O.operand('v_y', tuple(B)); yv = y.x
    else: y = yv = Leaf('w', tuple(B)).arr(ro=False)
    value_is("the value is numpy's", x.dot(y).r, np_atleast_1d(np_dot(x.x, yv)), F); c.cover('done')
def e_reshape():
    """x.reshape(s) and x.reshape(p, q): through numpy's function of the same arguments"""
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.reshape'
    if c.choose(2):
        x = O.operand('v_x'); s = SymArg('shape')
        value_is("the value is numpy's", x.reshape(s).r, m['np'].reshape(x.x, s), F); c.cover('one argument')
    else:
        p, q = axes_of(2, 'n'); x = O.operand('v_x', ((p + q),))
        n = (SymProd(p), SymProd(q)); n = n if c.choose(2) else (SymProd(p), -1)
        y = x.reshape(*n) if c.choose(2) else x.reshape(n)
        value_is("the value is numpy's", y.r, m['np'].reshape(x.x, n), F)
        c.cover('several arguments')
def e_transpose():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.transpose'
    rank = 1 + c.choose(3); x = O.operand('v_x', axes_of(rank))
    import itertools
    ps = list(itertools.permutations(range(rank))); how = c.choose(4)
    if how == 0: y, ax = x.transpose(), None
    elif how == 1: y, ax = x.T, None
    else:
        ax = ps[c.choose(len(ps))]
        y = x.transpose(*ax) if how == 2 and rank > 1 else x.transpose(ax if c.choose(2) else list(ax))
    value_is("the value is numpy's", y.r, transpose(x.x, ax), F); c.cover('axes' if ax is not None else 'no axes')
def e_squeeze():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.squeeze'
    x = O.operand('v_x'); a = None if c.choose(2) else SymArg('axis')
    y = x.squeeze() if a is None and c.choose(2) else x.squeeze(a) if c.choose(2) else x.squeeze(axis=a)
    value_is("the value is numpy's", y.r, np_atleast_1d(m['np'].squeeze(x.x, a)), F); c.cover('done')
def e_properties():
    """shape, size, ndim, length, array conversion and calling"""
    c = ctx(); m = mods(); reset(); O = Ops()
    x = O.operand('v_x', axes_of(2)); v = x.x
    y = x if c.choose(2) else m['ops'].negative(x); v = x.x if y is x else m['np'].negative(x.x)
    c.prove('the value is that of numpy: shape', len(y.shape) == 2 and all(valid(iv(p) == iv(q)) for p, q in zip(y.shape, v.shape)), 'ch.Ch.shape')
    c.prove('the value is that of numpy: size', valid(iv(y.size) == iv(v.size)), 'ch.Ch.size')
    c.prove('the value is that of numpy: rank', y.ndim == 2, 'ch.Ch.ndim')
    c.prove('the value is that of numpy: shape(x)', len(m['ops'].shape(y)) == 2 and all(valid(iv(p) == iv(q)) for p, q in zip(m['ops'].shape(y), v.shape)), 'ch_ops.shape')
    value_is("the value is numpy's", y.__array__(), v, 'ch.Ch.__array__')
    # calling: assigns, then evaluates
    l = Leaf('w_x', axes_of(2, 'm'))
    if y is x: r = x(x=l.arr(ro=False)); w = x.x
    else:
        z = O.operand('v_z', axes_of(2, 'm')); r = y(x=z); w = m['np'].negative(z.x)
    value_is("the value is numpy's", r, w, 'ch.Ch.__call__')
    # of a plain array
    s = m['ops'].shape(l.arr(ro=False)); c.prove('the value is that of numpy: shape(array)', len(s) == 2, 'ch_ops.shape')
    c.cover('done')
def e_scalar():
    c = ctx(); m = mods(); reset(); O = Ops()
    seen = []
    class V(object):
        def __float__(self): seen.append('f'); return 2.5
        def __int__(self): seen.append('i'); return 2
    class N(m['ch'].Ch):
        dterms = ()
        @property
        def r(self): return V()
    o = object.__new__(N)
    c.prove('the value is that of numpy: float(x)', m['ch'].Ch.__float__(o) == 2.5, 'ch.Ch.__float__')
    c.prove('the value is that of numpy: int(x)', m['ch'].Ch.__int__(o) == 2, 'ch.Ch.__int__'); c.cover('done')

class Spy(object):
    """stands for a numpy function: records its arguments and returns a known result"""
    def __init__(self, out): self.out, self.calls = out, []
    def __call__(self, *a, **k): self.calls.append((a, k)); return self.out
def same_args(given, got, m):
    """got: the arguments numpy received; objects of the library may be passed as themselves (numpy reads their __array__)"""
    def eq(p, q):
        if p is q: return True
        if hasattr(p, 'compute_r'): p = p.r
        if hasattr(q, 'compute_r'): q = q.r
        if isinstance(p, SArr) and isinstance(q, SArr): return p.buf is q.buf or (p.axes is q.axes and p.buf.fn is q.buf.fn)
        return p is q or (type(p) in (int, type(None), str) and p == q)
    return len(given) == len(got) and all(eq(p, q) for p, q in zip(given, got))
def bind(a, k, names):
    """positional and keyword arguments together"""
    d = dict(zip(names, a)); d.update(k); return d
def with_np(m, name, f):
    """numpy's function replaced for the duration of a call"""
    class P(object):
        def __enter__(self): self.old = getattr(m['np'], name); setattr(m['np'], name, f)
        def __exit__(self, *a): setattr(m['np'], name, self.old)
    return P()
def creation(name):
    """Ch(np.name(...)): same arguments, and a variable holding the result"""
    def f():
        c = ctx(); m = mods(); reset(); F = 'ch_ops.' + name
        fn = m['ops'].__dict__.get(name)
        if fn is None: unsup('no function', name)
        out = Leaf('made', OShape(['MADE_shape'])).arr(ro=False); s = Spy(out); a, b, kv = SymArg('first'), SymArg('second'), SymArg('keyword')
        with with_np(m, name, s):
            n = c.choose(3)
            r = fn(a) if n == 0 else fn(a, b) if n == 1 else fn(a, key=kv)
        given = ((a,), {}) if n == 0 else ((a, b), {}) if n == 1 else ((a,), {'key': kv})
        ok = len(s.calls) == 1 and len(s.calls[0][0]) == len(given[0]) and all(p is q for p, q in zip(s.calls[0][0], given[0])) and set(s.calls[0][1]) == set(given[1]) and all(s.calls[0][1][k] is given[1][k] for k in given[1])
        c.prove("the value is numpy's for the arguments given", ok, F)
        c.prove('the value is a variable', type(r) is m['ch'].Ch, F)
        if type(r) is m['ch'].Ch: value_is("the value is numpy's", r.r, out, F)
        c.cover('done')
    return f
def indices(name, axis):
    """np.name of the value, for objects and for plain arrays"""
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch_ops.' + name
        fn = m['ops'].__dict__[name]; res = object(); s = Spy(res)
        if c.choose(2): x = O.operand('v_x'); v = x.r; c.cover('object')
        else: x = v = Leaf('w', OShape(['W_shape'])).arr(ro=False); c.cover('array')
        ax = SymArg('axis') if axis and c.choose(2) else None
        with with_np(m, name, s):
            r = fn(x) if ax is None else fn(x, ax) if c.choose(2) else fn(x, axis=ax)
        d = bind(*s.calls[0], ('a', 'axis')) if len(s.calls) == 1 else {}
        c.prove("the value is numpy's for the arguments given", r is res and 'a' in d and same_args((v,), (d['a'],), m) and d.get('axis') is ax and set(d) <= {'a', 'axis'}, F)
        c.cover('done')
    return f
def logic(name):
    def f():
        c = ctx(); m = mods(); reset(); O = Ops(); F = 'logic.LogicFunc.compute_r'
        x = O.operand('v_x') if c.choose(2) else None
        given = x if x is not None else Leaf('w', OShape(['W_shape'])).arr(ro=False)
        extra = SymArg('extra'); n = c.choose(3)
        out = SArr(OShape(['TRUTH_shape']), lambda i: z3.Function('truth', z3.IntSort(), z3.BoolSort())(*i), kind='b'); s = Spy(out)
        with with_np(m, name, s):
            fn = m['logic'].__dict__[name]
            y = fn(given) if n == 0 else fn(given, extra) if n == 1 else fn(given, key=extra)
            r = y.r
            a, k = s.calls[-1] if s.calls else ((), {})
            v = x.r if x is not None else given
            ok = len(a) == (2 if n == 1 else 1) and same_args((v,), a[:1], m) and (n != 1 or a[1] is extra) and (k == {} if n != 2 else set(k) == {'key'} and k['key'] is extra)
            c.prove("the value is numpy's for the arguments given", bool(ok), F)
            value_is("the value is numpy's", r, np_asarray(out, stubs.Float64), F)
            c.prove('no derivative', y.compute_dr_wrt(x if x is not None else y.a) is None, 'logic.LogicFunc.compute_dr_wrt')
            # after a change of the operand numpy is asked again
            c.cover('first'); n0 = len(s.calls)
            if x is not None:
                x.x = Leaf('w2', OShape(['W2_shape'])).arr(ro=False); r = y.r
                c.prove("the value is numpy's for the arguments given", len(s.calls) > n0 and same_args((x.r,), s.calls[-1][0][:1], m), F)
        c.cover('done')
    return f
def e_asarray():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch_ops.asarray'
    x = O.operand('v_x')
    c.prove('the value is the object itself', m['ops'].asarray(x) is x, F)
    a = Leaf('w', OShape(['W_shape'])).arr(ro=False); y = m['ops'].asarray(a)
    c.prove('the value is an object of the library', type(y) is m['ch'].Ch, F); value_is("the value is numpy's", y.r, a, F)
    c.prove('the value is the object itself', m['ops'].ascontiguousarray(x) is x and m['ops'].asfarray(x) is x, 'ch_ops.ascontiguousarray')
    c.cover('done')
def e_variable():
    """Ch(x) for whatever numpy turns into an array: its value, and its derivative by itself"""
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.__new__'; k = c.choose(6); np = m['np']
    if k == 0: g = Leaf('w', OShape(['W_shape'])).arr(ro=False); v = g
    elif k == 1: n = SymReal(z3.Real('w')); g, v = n, asarr(n)
    elif k == 2: n = SymInt(z3.Int('w')); g, v = n, asarr(n)
    elif k == 3:
        fi = z3.Function('w', z3.IntSort(), z3.IntSort()); s = OShape(['W_shape']); g = v = SArr(s, lambda i: fi(*i), kind='i')
    elif k == 4: g = [SymReal(z3.Real('w0')), SymReal(z3.Real('w1'))]; v = asarr(g)
    else:
        fb = z3.Function('w', z3.IntSort(), z3.BoolSort()); s = OShape(['W_shape']); g = v = SArr(s, lambda i: fb(*i), kind='b')
    by = c.choose(2) if k == 0 else 0
    x = m['ch'].Ch(x=g) if by else m['ch'].Ch(g)
    value_is("the value is numpy's", x.r, np_atleast_1d(np_asarray(v, stubs.Float64)), F)
    if k == 0:
        leaf = Leaf('w', OShape(['W_shape'])); x2 = m['ch'].Ch(leaf.arr(ro=False))
        i = tuple(z3.Int(c.fresh('i')) for _ in leaf.atoms)
        for p, d in zip(i, leaf.atoms): c.assume(z3.And(p >= 0, p < d))
        J = x2.compute_dr_wrt(x2)
        if J is None: c.prove('a variable depends on itself', False, 'ch.Ch.compute_dr_wrt')
        else: t_ops.prove_jacobian_at(J, x2.r, i, leaf, 'ch.Ch.compute_dr_wrt', [])
        c.prove('a variable depends on nothing else', x2.compute_dr_wrt(x) is None and x2.compute_dr_wrt(m['ops'].negative(x2)) is None, 'ch.Ch.compute_dr_wrt')
    c.cover('done')

# ---- C21: constructors of user-defined operations
FORMS = ('absent', 'one name', 'tuple', 'list')
def declare(c, m, base=None, tag='', depends=True):
    """a class with declared inputs, in one of the ways inputs can be declared; returns the class and the order in which positional arguments are bound"""
    Ch = m['ch'].Ch
    d = c.choose(4); t = c.choose(4)
    dn = [] if d == 0 else ['d' + tag + '1'] if d == 1 else ['d' + tag + '1', 'd' + tag + '2']
    tn = [] if t == 0 else ['tt' + tag] if t == 1 else ['tt' + tag, 'uu' + tag]
    ns = {}
    if d: ns['dterms'] = dn[0] if d == 1 else tuple(dn) if d == 2 else list(dn)
    if t: ns['terms'] = tn[0] if t == 1 else tuple(tn) if t == 2 else list(tn)
    order = tn + dn
    if c.choose(2):
        order = (dn + tn)[::-1]
        ns['term_order'] = tuple(order) if d % 2 else list(order)
    if depends and dn:
        def prop(self): return None
        prop.__name__ = 'prop'; ns['prop'] = m['ch'].depends_on(*dn)(prop)
        if d == 3:
            def second(self): return None
            ns['second'] = m['ch'].depends_on(dn[-1])(second)
    cls = type('Op', (base or Ch,), ns)
    declare.explicit = 'term_order' in ns
    return cls, dn, tn, order
def make_args(c, names, dn, O, m):
    """values for the inputs: objects, plain arrays or numbers for differentiable ones; anything for the others"""
    vals = {}
    for k, n in enumerate(names):
        if n in dn:
            w = c.choose(3)
            vals[n] = O.operand('v_' + n) if w == 0 else Leaf('p_' + n, OShape(['P_%s_shape' % n])).arr(ro=False) if w == 1 else SymReal(z3.Real('n_' + n))
        else: vals[n] = [object()]
    return vals
def bound(c, m, o, vals, dn, F):
    for n, v in vals.items():
        g = o.__dict__.get(n)
        if n in dn and not hasattr(v, 'compute_r'):
            ok = type(g) is m['ch'].Ch
            c.prove('a plain value given for a differentiable input becomes a variable', ok, F)
            if ok: value_is('the variable holds the plain value given', g.r, np_atleast_1d(asarr(v)), F)
        else: c.prove('each input is bound to the argument given for it', g is v, F)
        if n in dn and g is not None and hasattr(g, '_parents'): c.prove('the object is registered as a user of its inputs', o in g._parents and g._parents[o]['varnames'] == {q for q in dn if o.__dict__.get(q) is g}, F)
def clean(c, o, cls, F, dep):
    c.prove('a new object has no remembered value or Jacobian', o._cache.get('r') is None and len(o._cache['drs']) == 0, F)
    c.prove('a new object has no users', len(o._parents) == 0, F)
    c.prove('properties of a new object are out of date', all(v['out_of_date'] and v['value'] is None for v in o._depends_on_deps.values()) and set(o._depends_on_deps) == (({'prop', 'second'} if hasattr(cls, 'second') else {'prop'}) if dep else set()), F)
def e_construct():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.__new__'
    if c.choose(2):
        # another class was defined, used, and possibly discarded before
        class Before(m['ch'].Ch):
            dterms = 'q'
            def compute_r(self): return self.q.r
        Before(3.)
        if c.choose(2): del Before; gc.collect(0)
        c.cover('after another class')
    cls, dn, tn, order = declare(c, m)
    npos = c.choose(len(order) + 1)
    vals = make_args(c, order, dn, O, m)
    kw = {n: vals[n] for n in order[npos:]}
    flags = {}
    w = c.choose(3)
    if w == 1: flags['make_dense'] = True
    if w == 2: flags['make_sparse'] = True
    o = cls(*[vals[n] for n in order[:npos]], **dict(kw, **flags))
    c.prove('the object has the class it was made of', type(o) is cls, F)
    bound(c, m, o, vals, dn, F)
    c.prove('requests for a storage format are kept', o._make_dense is (w == 1) and o._make_sparse is (w == 2), F)
    c.prove('inputs not given are absent', all(n in vals or n not in o.__dict__ for n in dn + tn), F)
    c.prove('the differentiable inputs are those declared', list(o.dterms) == dn and list(o.terms) == tn, 'ch.Ch.setup_terms')
    clean(c, o, cls, F, bool(dn))
    c.prove('every input given counts as changed', set(vals) <= set(o._dirty_vars), F)
    c.cover('positional' if npos else 'keyword')
def e_independent():
    """two objects of one class share no state"""
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.__new__'
    cls, dn, tn, order = declare(c, m)
    v1, v2 = make_args(c, order, dn, O, m), {n: (O.operand('w_' + n) if n in dn else [object()]) for n in order}
    a = cls(**v1); b = cls(**v2)
    bound(c, m, a, v1, dn, F)
    for n in ('_dirty_vars', '_parents', '_cache', '_depends_on_deps'): c.prove('no two objects share state', a.__dict__[n] is not b.__dict__[n], F)
    c.prove('no two objects share state', a._cache['drs'] is not b._cache['drs'] and all(a._depends_on_deps[k] is not b._depends_on_deps[k] for k in a._depends_on_deps), F)
    c.cover('done')
def e_subclass():
    """a class derived from an operation, which was used before or not"""
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.setup_terms'
    base, bd, bt, border = declare(c, m, depends=False)
    used = c.choose(2)
    if used: base(**make_args_simple(border, bd, O, 'b'))
    explicit = declare.explicit
    how = c.choose(3)
    if how == 0: cls = type('Sub', (base,), {}); dn, tn, order = bd, bt, border
    else:
        ns = dict(dterms=tuple(bd + ['extra']))
        dn, tn = bd + ['extra'], bt
        if how == 2: order = ['extra'] + border; ns['term_order'] = order
        elif explicit: return     # inherits an order that does not mention the new input: only by keyword
        else: order = bt + dn
        cls = type('Sub', (base,), ns)
    vals = make_args_simple(order, dn, O, 's')
    o = cls(*[vals[n] for n in order])
    bound(c, m, o, vals, dn, F)
    if used and c.choose(2):      # the base class is as before
        v = make_args_simple(border, bd, O, 'r'); b = base(*[v[n] for n in border]); bound(c, m, b, v, bd, F)
    c.cover('used' if used else 'unused')
def make_args_simple(order, dn, O, tag): return {n: (O.operand('%s_%s' % (tag, n)) if n in dn else [object()]) for n in order}
def e_derived():
    """a class derived from an operation of the library is that operation"""
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.__new__'
    k = c.choose(4)
    base = (m['ops'].NanDivide, m['reo'].transpose, m['reo'].rollaxis, m['ops'].sum)[k]
    x = O.operand('v_x', axes_of(2))
    args = (x, O.operand('v_y', axes_of(2))) if k == 0 else (x,) if k == 1 else (x, 1)
    cls = type('Derived', (base,), {})
    if c.choose(2): cls = type('Derived2', (cls,), {})
    try: v = cls(*args).r
    except RecursionError: c.prove("the value is that of the operation it derives from", False, F); return
    value_is("the value is that of the operation it derives from", v, base(*args).r, F)
    c.cover(str(k))
def e_reserved():
    """names that would hide attributes of the library are refused"""
    c = ctx(); m = mods(); F = 'ch._check_kw_conflict'
    nm = ('r', 'dr_wrt', 'T', 'sum')[c.choose(4)]
    cls = type('Bad', (m['ch'].Ch,), dict(dterms=('good', nm)) if c.choose(2) else dict(dterms='good', terms=(nm,)))
    try: cls(); refused = False
    except core.Unsupported: raise
    except Exception: refused = True
    c.prove('reserved names are refused', refused, F); c.cover('done')
def e_lambda():
    c = ctx(); m = mods(); reset(); O = Ops(); F = 'ch.Ch.__new__'
    o = m['ch'].Ch(lambda a, b: a + b)
    c.prove('a function makes a function-style expression', type(o).__name__ == 'ChLambda' and isinstance(o, m['ch'].ChLambda), F); c.cover('done')

A = A0[:3] + ['numpy: binary operators of arrays and numbers give way to an object with a larger __array_priority__ (Python then calls the reflected operator)', 'numpy functions applied to an object use its __array__()', 'the derivative obligations of the operations are C01-C04']
def entries():
    E = []
    def add(name, f, cov, fns, props=('C10', 'C11'), **k): E.append((name, f, cov, dict(dict(props=props, functions=fns, assumptions=A, max_time=200), **k)))
    ops = [('+', operator.add, 'add', ('__add__', '__radd__')), ('-', operator.sub, 'subtract', ('__sub__', '__rsub__')), ('*', operator.mul, 'multiply', ('__mul__', '__rmul__')), ('/', operator.truediv, 'divide', ('__truediv__', '__rtruediv__')),
           ('**', operator.pow, 'power', ('__pow__', '__rpow__')), ('>', operator.gt, 'greater', ('__gt__', '__lt__')), ('>=', operator.ge, 'greater_equal', ('__ge__', '__le__')), ('<', operator.lt, 'less', ('__lt__', '__gt__')),
           ('<=', operator.le, 'less_equal', ('__le__', '__ge__')), ('!=', operator.ne, 'not_equal', ('__ne__', '__ne__'))]
    for sym, op, ref, d in ops:
        add('operator ' + sym, binary(sym, op, ref, d), tuple('%s %d' % (k, s) for k in KINDS for s in (0, 1)), ['ch.Ch.' + x for x in dict.fromkeys(d)])
    for w in ('__div__', '__rdiv__'): add('operator ' + w, old_division(w), ('done',), ['ch.Ch.' + w])
    un = [('operator -x', lambda m, x: -x, lambda np, a: np.negative(a), 'ch.Ch.__neg__'), ('operator +x', lambda m, x: +x, lambda np, a: a, 'ch.Ch.__pos__'), ('abs(x)', lambda m, x: abs(x), lambda np, a: np.absolute(a), 'ch.Ch.__abs__'),
          ('x.floor()', lambda m, x: x.floor(), lambda np, a: np.floor(a), 'ch.Ch.floor'), ('x.ceil()', lambda m, x: x.ceil(), lambda np, a: np.ceil(a), 'ch.Ch.ceil'), ('x.ravel()', lambda m, x: x.ravel(), lambda np, a: np.ravel(a), 'ch.Ch.ravel'),
          ('ravel(x)', lambda m, x: m['reo'].ravel(x), lambda np, a: np.ravel(a), 'reordering.ravel'), ('abs function', lambda m, x: m['ops'].abs(x), lambda np, a: np.absolute(a), 'ch_ops.abs')]
    for n, f, r, F in un: add(n, unary(f, r, F), ('done',), [F], props=('C10', 'C11', 'C07'))
    for n, r in (('sum', np_sum), ('mean', np_mean), ('min', np_amin), ('max', np_amax)): add('x.%s()' % n, reducer(n, r), ('done',), ['ch.Ch.' + n], bounded='ranks 1-3, every axis, any dimensions')
    add('x.cumsum()', reducer('cumsum', np_cumsum, (1, 2)), ('done',), ['ch.Ch.cumsum', 'ch_ops.cumsum.on_changed'], bounded='ranks 1-2, any dimensions')
    add('x.dot()', e_dot, ('done',), ['ch.Ch.dot'], bounded='ranks 1-2, any dimensions')
    add('x.reshape()', e_reshape, ('one argument', 'several arguments'), ['ch.Ch.reshape', 'reordering.reshape'])
    add('x.transpose()', e_transpose, ('axes', 'no axes'), ['ch.Ch.transpose', 'ch.Ch.T'], bounded='ranks 1-3, any dimensions')
    add('x.squeeze()', e_squeeze, ('done',), ['ch.Ch.squeeze', 'reordering.squeeze'])
    add('shape, size, rank, call', e_properties, ('done',), ['ch.Ch.shape', 'ch.Ch.size', 'ch.Ch.ndim', 'ch.Ch.__array__', 'ch.Ch.__call__', 'ch_ops.shape'])
    add('float, int', e_scalar, ('done',), ['ch.Ch.__float__', 'ch.Ch.__int__'], props=('C10',))
    for n in ('empty', 'empty_like', 'eye', 'identity', 'ones', 'ones_like', 'zeros', 'zeros_like', 'array', 'linspace', 'logspace', 'meshgrid', 'mgrid', 'ogrid', 'fromfunction', 'fromiter', 'tri', 'arange'): add('creation: ' + n, creation(n), ('done',), ['ch_ops.' + n])
    for n in ('argmax', 'nanargmax', 'argmin', 'nanargmin'): add('positions: ' + n, indices(n, True), ('object', 'array', 'done'), ['ch_ops.' + n], props=('C10',))
    for n in ('argwhere', 'nonzero', 'flatnonzero'): add('positions: ' + n, indices(n, False), ('object', 'array', 'done'), ['ch_ops.' + n], props=('C10',))
    for n in ('all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'): add('logic: ' + n, logic(n), ('done',), ['logic.LogicFunc.compute_r', 'logic.LogicFunc.compute_dr_wrt'], props=('C10', 'C07'))
    add('asarray', e_asarray, ('done',), ['ch_ops.asarray', 'ch_ops.ascontiguousarray'])
    add('a variable', e_variable, ('done',), ['ch.Ch.__new__', 'ch.Ch.compute_r', 'ch.Ch.compute_dr_wrt'], props=('C10', 'C11', 'C05'))
    b = 'up to four declared inputs, every way of declaring them'
    add('construction', e_construct, ('positional', 'keyword', 'after another class'), ['ch.Ch.__new__', 'ch.Ch.setup_terms', 'ch.Ch.set', 'ch._check_kw_conflict', 'ch._dep_props_for', 'ch._props_for'], props=('C21',), bounded=b, max_paths=60000, weight=5)
    add('independent objects', e_independent, ('done',), ['ch.Ch.__new__'], props=('C21',), bounded=b, max_paths=60000)
    add('subclasses of operations', e_subclass, ('used', 'unused'), ['ch.Ch.setup_terms', 'ch.Ch.__new__'], props=('C21',), bounded=b, max_paths=60000)
    add('classes derived from the library\'s', e_derived, ('0', '1', '2', '3'), ['ch.Ch.__new__', 'ch.Ch.setup_terms', 'ch_ops.NanDivide.compute_r', 'reordering.transpose.on_changed', 'reordering.rollaxis.on_changed'], props=('C21',), bounded='rank 2, any dimensions')
    add('reserved names', e_reserved, ('done',), ['ch._check_kw_conflict', 'ch.Ch.setup_terms'], props=('C21',))
    add('functions', e_lambda, ('done',), ['ch.Ch.__new__'], props=('C19', 'C21'))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
