"""C10-C12: values equal numpy's, read-only values without side effects, indexed assignment."""
from hlib import *
import cases as K
import scipy.special, pickle, gc
from chumpy.ch import MatVecMult

def N(rep, q, t): return q if rep.tier == 'quick' else t

def rclose(a, b):
    """small entries count too: relative to the entry, or 1e-11 of the largest"""
    ok = np.isfinite(a) & np.isfinite(b)
    if not ok.any(): return True
    a, b = a[ok], b[ok]
    return bool((np.abs(a - b) <= 1e-7 * np.abs(b) + 1e-11 * np.abs(b).max() + 1e-290).all())

def same(rep, case, e, want, tol=1e-10):
    try:
        got = e.r if hasattr(e, 'dterms') else e
    except Exception as ex:
        rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-700:])); return
    rep.count(case)
    want = np.asarray(np.atleast_1d(want), np.float64)
    if hasattr(e, 'dterms'):
        if not isinstance(got, np.ndarray) or got.dtype != np.float64 or got.ndim < 1:
            rep.fail(case, 'value is not a float64 array: %r' % (got,)); return
        if e.shape != want.shape or e.size != want.size or e.ndim != want.ndim or len(e) != len(want):
            rep.fail(case, 'shape %s / size %s / ndim %s / len %s, expected those of an array of shape %s' % (e.shape, e.size, e.ndim, len(e), want.shape)); return
    else:
        got = np.asarray(np.atleast_1d(got), np.float64)
    if not close(got, want, tol) or not rclose(got, want):
        rep.fail(case, 'value\n%s\nexpected\n%s' % (arr(got), arr(want)))

def guarded(rep, case, f):
    try: return f()
    except Exception as ex:
        rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-700:]))

SPECIAL = np.array([0., -0., 1., -1., .5, -2.5, 3., 1e-3, np.inf, -np.inf, np.nan, 1e8])

def c10(rep):
    rng = rep.rng(10)
    reps = N(rep, 2, 12)
    rep.section = 'elementwise'
    for t in range(reps):
        for name, gen, f in K.UNARY + [(n, K.g_any, f) for n, f in K.UNARY0]:
            for s in K.SHAPES:
                a = gen(rng, s); case = '%s of shape %s' % (name, s)
                same(rep, case, guarded(rep, case, lambda: getattr(ch, name)(Ch(a))), f(a))
            if name not in ('tan',):
                case = name + ' special values'
                same(rep, case, guarded(rep, case, lambda: getattr(ch, name)(Ch(SPECIAL))), f(SPECIAL))
        for _ in range(3):
            q = np.linalg.qr(rng.randn(3, 3))[0]; d = 10.**rng.uniform(-12, 3, 3); A = (q * d).dot(np.linalg.qr(rng.randn(3, 3))[0])
            want = np.linalg.svd(A)[1]; got = guarded(rep, 'svd spread', lambda: ch.linalg.svd(Ch(A))[1].r); rep.count(('svd spread', t, _))
            if got is not None and (got.shape != want.shape or np.abs(got - want).max() > 1e-13 * want.max()): rep.fail('singular values of a badly scaled matrix', '%s vs %s' % (got, want))
        for name, f in (('multiply', np.multiply), ('divide', np.divide), ('add', np.add), ('subtract', np.subtract)):
            a, b = rng.randn(4) * 10.**rng.uniform(-20, 20, 4), rng.randn(4) * 10.**rng.uniform(-20, 20, 4)
            got = guarded(rep, name, lambda: getattr(ch, name)(Ch(a), Ch(b)).r); rep.count((name, 'magnitudes', t))
            if got is not None and not np.allclose(got, f(a, b), rtol=1e-9, atol=0): rep.fail(name + ' of entries of very different magnitude', '%s\n%s\n%s\n%s' % (a, b, got, f(a, b)))
        for name, gen, f in K.UNARY:
            a = gen(rng, (4,)) * 10.**rng.uniform(-9, 0, 4); w = f(a)
            got = guarded(rep, name, lambda: getattr(ch, name)(Ch(a)).r); rep.count((name, 'magnitudes', t))
            if got is not None and not np.allclose(got, w, rtol=1e-9, atol=0, equal_nan=True): rep.fail(name + ' of entries of very different magnitude', '%s\n%s\n%s' % (a, got, w))
        a = K.g_any(rng, (2, 3)); same(rep, 'clip', ch.clip(Ch(a), -.5, .7), np.clip(a, -.5, .7)); same(rep, 'clip, limits crossed', ch.clip(Ch(a), .7, -.5), np.clip(a, .7, -.5))
        lo, hi = rng.uniform(-1, 1, 3), rng.uniform(-1, 1, (2, 1)); same(rep, 'clip, limits per entry', guarded(rep, 'clip', lambda: ch.clip(Ch(a), lo, hi)), np.clip(a, lo, hi))
        same(rep, 'clip special', ch.clip(Ch(SPECIAL), -1., 2.), np.clip(SPECIAL, -1., 2.))
        a = K.g_pos(rng, (3,)); same(rep, 'gamma', ch.extras.gamma(Ch(a)), scipy.special.gamma(a))
        for name, ga, gb, f in K.BINARY:
            for sa, sb in K.PAIRS:
                a, b = K.fill_pair(rng, name, ga, gb, sa, sb); case = '%s %s %s' % (name, sa, sb)
                same(rep, case, guarded(rep, case, lambda: getattr(ch, name)(Ch(a), Ch(b))), f(a, b))
        for name in K.BINARY0:
            for sa, sb in K.PAIRS:
                a, b = rng.randint(0, 3, sa) * 1., rng.randint(0, 3, sb) * 1.; case = '%s %s %s' % (name, sa, sb)
                same(rep, case, guarded(rep, case, lambda: getattr(ch, name)(Ch(a), Ch(b))), getattr(np, name)(a, b))
    rep.section = 'special operand values'
    A, B = np.meshgrid(np.array([0., 1., -1., 2.5, -3., np.inf, np.nan]), np.array([0., 1., -1., 2., -.5, np.nan]))
    for name in ('add', 'subtract', 'multiply', 'divide', 'maximum', 'minimum'):
        same(rep, name + ' special', guarded(rep, name, lambda: getattr(ch, name)(Ch(A), Ch(B))), getattr(np, name)(A, B))
    nd = A / B; nd[~np.isfinite(nd)] = 0
    same(rep, 'NanDivide special', guarded(rep, 'NanDivide', lambda: ch.NanDivide(Ch(A), Ch(B))), nd)
    pw = np.power(A, B); pw[np.isinf(pw)] = 0
    same(rep, 'power special', guarded(rep, 'power', lambda: ch.power(Ch(A), Ch(B))), pw)
    rep.section = 'operators'
    import operator as op
    OPS = [('+', op.add), ('-', op.sub), ('*', op.mul), ('/', op.truediv), ('**', op.pow), ('<', op.lt), ('<=', op.le), ('>', op.gt), ('>=', op.ge)]
    for t in range(reps):
        for sym, f in OPS:
            for sa, sb in K.PAIRS:
                a, b = K.g_pos(rng, sa), K.g_pos(rng, sb)
                if len(sa) + len(sb) > 0 and rng.rand() < .3:
                    b = np.resize(a, sb) if sb else b
                want = f(a, b)
                same(rep, 'Ch%sCh %s %s' % (sym, sa, sb), guarded(rep, sym, lambda: f(Ch(a), Ch(b))), want)
                same(rep, 'Ch%sarray %s %s' % (sym, sa, sb), guarded(rep, sym, lambda: f(Ch(a), b)), want)
                same(rep, 'array%sCh %s %s' % (sym, sa, sb), guarded(rep, sym, lambda: f(a, Ch(b))), want)
            b = K.g_pos(rng, (2, 3)); k = float(rng.uniform(.5, 2)); i = int(rng.randint(1, 4))
            for v in (k, i):
                same(rep, 'number%sCh' % sym, guarded(rep, sym, lambda: f(v, Ch(b))), f(v, b))
                same(rep, 'Ch%snumber' % sym, guarded(rep, sym, lambda: f(Ch(b), v)), f(b, v))
                same(rep, 'npnumber%sCh' % sym, guarded(rep, sym, lambda: f(np.float64(v), Ch(b))), f(v, b))
        b = rng.randint(-3, 4, (2, 3)) * 1.
        for v in (0., -2., -1, 0, 1, np.float64(-1.5), np.array([-1., 0., 2.])):
            w = np.power(np.asarray(v, np.float64), np.abs(b))
            same(rep, '%s ** Ch of whole numbers' % (v,), guarded(rep, '**', lambda: v ** Ch(np.abs(b))), w)
        for v in (0, 1, 2, 3, 2., -1): w = np.power(b, float(v)); w[np.isinf(w)] = 0; same(rep, 'Ch ** %s' % v, guarded(rep, '**', lambda: Ch(b) ** v), w)
        b = K.g_any(rng, (2, 3))
        same(rep, '-Ch', -Ch(b), -b)
        same(rep, 'abs(Ch)', guarded(rep, 'abs', lambda: abs(Ch(b))) if hasattr(Ch, '__abs__') else ch.abs(Ch(b)), np.abs(b))
    rep.section = 'methods and functions'
    for t in range(reps):
        for tab in (K.REARR, K.RED, K.LIN):
            for name, draws, build, npf, _, gen in tab:
                for shapes, args in draws:
                    arrays = [gen(rng, s) for s in shapes]; case = '%s %s %s' % (name, shapes, args)
                    want = guarded(rep, case, lambda: npf([np.atleast_1d(a) if name in ('T',) else a for a in arrays], *args))
                    if want is None: continue
                    e = guarded(rep, case, lambda: build([Ch(a) for a in arrays], *args))
                    if name in ('svd0', 'svd2'): e, want = ch.abs(e), np.abs(want) # singular vectors are unique up to sign only
                    same(rep, case, e, want, 1e-8 if tab is K.LIN else 1e-10)
                    if tab is K.LIN and t == 0 or rng.rand() < .1:
                        # other magnitudes (a well conditioned matrix scaled, and one with widely spread singular values)
                        arrays = [a * 10.**rng.randint(-6, 7) for a in arrays]
                        want = guarded(rep, case, lambda: npf([np.atleast_1d(a) if name in ('T',) else a for a in arrays], *args))
                        e = guarded(rep, case, lambda: build([Ch(a) for a in arrays], *args))
                        if want is None or e is None: continue
                        if name in ('svd0', 'svd2'): e, want = ch.abs(e), np.abs(want)
                        same(rep, case + ' scaled', e, want, 1e-7)
        rep.section = 'random arguments'
        for _ in range(6):
            for name, draws, build, npf, _x, gen in K.random_table(rng, K.RAND2 + K.RAND3):
                for shapes, args in draws:
                    arrays = [gen(rng, s) for s in shapes]; case = '%s %s %s' % (name, shapes, args)
                    if rng.rand() < .5 and name[7:] not in ('dot', 'tensordot', 'cross', 'cross.same'):
                        for a in arrays: a.reshape(-1)[rng.rand(a.size) < .3] = rng.choice(SPECIAL)
                        case += ' special values'
                    same(rep, case, guarded(rep, case, lambda: build([Ch(a) for a in arrays], *args)), npf(arrays, *args))
        rep.section = 'methods and functions'
        for k in (2, 3):
            As = [K.g_inv(rng, (n, n))[::rng.choice([-1, 1])] for n in rng.randint(1, 4, k)]
            sg, ld = ch.linalg.slogdet(*[Ch(A) for A in As])
            for u, A in zip(sg, As): same(rep, 'slogdet of several: sign', u, np.linalg.slogdet(A)[0])
            same(rep, 'slogdet of several: logarithms', ld, [np.linalg.slogdet(A)[1] for A in As])
        for ax in (None, 0, 1, (0, 1), -1):
            a = K.g_any(rng, (2, 3))
            same(rep, 'sum axis=%s' % (ax,), guarded(rep, 'sum', lambda: ch.sum(Ch(a), axis=ax)), np.sum(a, axis=ax))
            a3 = K.g_distinct(rng, (2, 3, 2))
            for n in ('sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin'):
                for ax3 in ((0, 1), (0, 2), (-1,), (2, 0, 1), (1, -1)): same(rep, '%s axis=%s' % (n, ax3), guarded(rep, n, lambda: getattr(ch, n)(Ch(a3), axis=ax3)), getattr(np, n)(a3, axis=ax3))
            if not isinstance(ax, tuple):
                same(rep, 'cumsum axis=%s' % ax, guarded(rep, 'cumsum', lambda: ch.cumsum(Ch(a), axis=ax)), np.cumsum(a, axis=ax))
        a = K.g_any(rng, (2, 3)); b = K.g_any(rng, (2, 3))
        for n in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
            for ax in (None, 0, 1): same(rep, '%s %s' % (n, ax), guarded(rep, n, lambda: getattr(ch, n)(Ch(a), ax)), getattr(np, n)(a, ax))
        z = rng.randint(0, 2, (2, 3)) * 1.
        for n in ('argwhere', 'flatnonzero'):
            same(rep, n, guarded(rep, n, lambda: getattr(ch, n)(Ch(z))), getattr(np, n)(z))
        for u, v in zip(ch.nonzero(Ch(z)), np.nonzero(z)): same(rep, 'nonzero', u, v)
        z = rng.choice([0., 1., np.inf, -np.inf, np.nan], (3, 4))
        for n in ('all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'):
            same(rep, n, guarded(rep, n, lambda: getattr(ch, n)(Ch(z))), getattr(np, n)(z))
        for n in ('all', 'any'): same(rep, n + ' axis', guarded(rep, n, lambda: getattr(ch, n)(Ch(z), axis=1)), getattr(np, n)(z, axis=1))
        for axes in (dict(), dict(axis=0), dict(axisa=0, axisb=1, axisc=0)):
            a = K.g_any(rng, (3, 3)); b = K.g_any(rng, (3, 3))
            same(rep, 'cross %s' % axes, guarded(rep, 'cross', lambda: ch.cross(Ch(a), Ch(b), **axes)), np.cross(a, b, **axes))
        a = K.g_any(rng, (3,)); b = K.g_any(rng, (3,)); same(rep, 'cross 1d', guarded(rep, 'cross', lambda: ch.cross(Ch(a), Ch(b))), np.cross(a, b))
        for (n, args) in (('eye', (3,)), ('identity', (3,)), ('ones', ((2, 3),)), ('zeros', ((2, 3),)), ('ones_like', (np.zeros((2, 2)),)), ('zeros_like', (np.ones((2, 2)),)),
                          ('array', ([[1, 2], [3, 4]],)), ('linspace', (0, 1, 5)), ('logspace', (0, 1, 4)), ('tri', (3,)), ('fromfunction', (lambda i, j: i - j, (2, 3))), ('fromiter', ([1., 2.], float))):
            same(rep, n, guarded(rep, n, lambda: getattr(ch, n)(*args)), getattr(np, n)(*args))
        for s in ((), (3,), (2, 3)):
            a = K.g_any(rng, s); x = Ch(a)
            same(rep, 'Ch(a)', x, a); same(rep, 'asarray', ch.asarray(x), a); same(rep, 'asarray2', ch.asarray(a), a)
            same(rep, 'np.asarray', np.asarray(x * 2), a * 2)
        x = Ch(3.5); same(rep, 'float', float(x), 3.5); same(rep, 'int', int(Ch(3)), 3)
        a = K.g_any(rng, (4, 2)); st = rng.get_state()
        same(rep, 'moment2', guarded(rep, 'moment', lambda: ch.extras.moment(Ch(a), moment=2, axis=0)), np.mean((a - a.mean(0))**2, 0))
        for args in ((3,), (2, 3)):
            np.random.seed(t); w = np.random.rand(*args); ch.random.seed(t); same(rep, 'random.rand', guarded(rep, 'random', lambda: ch.random.rand(*args)), w)
            np.random.seed(t); w = np.random.randn(*args); ch.random.seed(t); same(rep, 'random.randn', guarded(rep, 'random', lambda: ch.random.randn(*args)), w)
    rep.section = 'known'
    a = K.g_any(rng, (3, 4)) + 2
    for ax in (None, 0, 1):
        for n, want, old in (('var', np.var(a, axis=ax), np.mean(a**2, axis=ax)), ('std', np.std(a, axis=ax), np.sqrt(np.mean(a**2, axis=ax)))):
            e = guarded(rep, n, lambda: getattr(ch, n)(Ch(a), axis=ax))
            if e is None: continue
            rep.count((n, ax))
            if close(e.r, np.atleast_1d(old)): rep.fail(n, '', known='ch.%s(a) returns %s instead of the %s' % (n, 'mean(a**2)' if n == 'var' else 'sqrt(mean(a**2))', 'variance' if n == 'var' else 'standard deviation'))
            elif not close(e.r, np.atleast_1d(want)): rep.fail(n, 'neither the %s nor the known deviation: %s' % (n, arr(e.r)))

def all_exprs(rng):
    for tab in (K.REARR, K.RED, K.LIN, K.random_table(rng, K.RAND2 + K.RAND3, 1)):
        for name, draws, build, npf, _, gen in tab:
            for shapes, args in draws:
                yield name, [gen(rng, s) for s in shapes], build, args
    for name, gen, f in K.UNARY + [(n, K.g_any, f) for n, f in K.UNARY0]:
        for s in K.SHAPES[:5] if name != 'exp' else K.SHAPES:
            yield name, [gen(rng, s)], (lambda n: lambda c: getattr(ch, n)(c[0]))(name), ()
    for name, ga, gb, f in K.BINARY:
        for sa, sb in K.PAIRS[:10] + [((1, 3), (1, 3))]:
            yield name, list(K.fill_pair(rng, name, ga, gb, sa, sb)), (lambda n: lambda c: getattr(ch, n)(c[0], c[1]))(name), ()
    for name in K.BINARY0:
        yield name, [K.g_any(rng, (3,)), K.g_any(rng, (3,))], (lambda n: lambda c: getattr(ch, n)(c[0], c[1]))(name), ()
    yield 'clip', [K.g_any(rng, (2, 3))], (lambda c: ch.clip(c[0], -1, 1)), ()
    yield 'gamma', [K.g_pos(rng, (3,))], (lambda c: ch.extras.gamma(c[0])), ()
    for n in ('all', 'any', 'isfinite', 'isinf', 'isnan', 'isneginf', 'isposinf', 'logical_not'):
        yield n, [K.g_any(rng, (2, 3))], (lambda n: lambda c: getattr(ch, n)(c[0]))(n), ()
    yield 'arr+', [K.g_any(rng, (3,))], (lambda c: np.arange(3.) + c[0]), ()
    yield 'x', [K.g_any(rng, (3,))], (lambda c: c[0]), ()
    yield 'x*x', [K.g_any(rng, (3,))], (lambda c: c[0] * c[0]), ()
    yield 'lambda', [K.g_any(rng, (3,)), K.g_any(rng, (3,))], (lambda c: _lam(c)), ()
    yield 'bool', [np.array([True, False]).astype(float)], (lambda c: c[0] + True), ()

def _lam(c):
    l = Ch(lambda p, q: p * q + p); l.p = c[0]; l.q = c[1]; return l

def readonly(rep, case, r):
    rep.count(case)
    if not isinstance(r, np.ndarray) or r.dtype != np.float64 or r.ndim < 1:
        rep.fail(case, 'value is not a float64 array of at least one dimension: %r' % (r,)); return
    if not r.flags['C_CONTIGUOUS']:
        pass
    before = np.array(r)
    try:
        r.reshape(-1)[...] = 77.; r[...] = 77.
    except (ValueError, TypeError): pass
    except Exception as ex: rep.fail(case, 'unexpected %s' % ex)
    if r.size and not np.array_equal(before, np.array(r), equal_nan=True):
        rep.fail(case, 'the value of an object could be written to through the array it returned')

def c11(rep):
    rng = rep.rng(11)
    for t in range(N(rep, 1, 6)):
        heldv = []
        for name, arrays, build, args in all_exprs(rng):
            case = '%s %s %s' % (name, [a.shape for a in arrays], args)
            try:
                supplied = [np.array(a) for a in arrays]; orig = [s.copy() for s in supplied]
                args2 = tuple(np.array(x) if isinstance(x, np.ndarray) else (list(x) if isinstance(x, list) else x) for x in args); args_before = repr(args2)
                vs = [Ch(s) for s in supplied]
                e = build(vs, *args2)
                r = e.r; first = np.array(r)
                order = rng.permutation(4)
                for o in order:
                    if o == 0: e.r
                    elif o == 1:
                        for v in vs: e.dr_wrt(v)
                    elif o == 2:
                        for v in vs:
                            if e is not v: e.dr_wrt(v, reverse_mode=True)
                    elif o == 3:
                        for v in vs: e.lop(v, np.ones((1, e.size)))
                rep.count(case)
                if not np.array_equal(first, r, equal_nan=True): rep.fail(case, 'differentiating altered the value returned earlier: %s -> %s' % (arr(first), arr(r)))
                if not np.array_equal(first, e.r, equal_nan=True): rep.fail(case, 'value changed without an assignment: %s -> %s' % (arr(first), arr(e.r)))
                for i, (s, o) in enumerate(zip(supplied, orig)):
                    if not np.array_equal(s, o): rep.fail(case, 'the array supplied for operand %d was altered: %s -> %s' % (i, arr(o), arr(s)))
                    if not np.array_equal(vs[i].r, np.atleast_1d(o)): rep.fail(case, 'operand %d was altered by evaluation: %s -> %s' % (i, arr(o), arr(vs[i].r)))
                if repr(args2) != args_before: rep.fail(case, 'an argument was altered: %s -> %s' % (args_before, args2))
                readonly(rep, case, r)
                for v in vs: readonly(rep, case + ' operand', v.r)
                # later changes must not alter what was returned
                vr = [v.r for v in vs]; vr0 = [np.array(a) for a in vr]
                Js = [e.dr_wrt(v) for v in vs]; Jd = [None if J is None else dense(J).copy() for J in Js]
                for i, v in enumerate(vs):
                    new = np.array(arrays[i]) * 1.01 + .003
                    if name in ('arcsin', 'arccos', 'tan'): new = np.array(arrays[i]) * .9
                    if rng.rand() < .5 or not new.shape: v.x = new
                    else: v[...] = new
                e.r
                for v in vs: e.dr_wrt(v)
                if not np.array_equal(first, r, equal_nan=True): rep.fail(case, 'a value returned earlier was altered by a later assignment: %s -> %s' % (arr(first), arr(r)))
                for a, b in zip(vr, vr0):
                    if not np.array_equal(a, b, equal_nan=True): rep.fail(case, 'an operand value returned earlier was altered by a later assignment')
                for J, D in zip(Js, Jd):
                    if J is not None and not np.array_equal(dense(J), D, equal_nan=True): rep.fail(case, 'a Jacobian returned earlier was altered')
                for s, o in zip(supplied, orig):
                    if not np.array_equal(s, o): rep.fail(case, 'the array supplied by the user was altered by a later assignment')
                heldv.append((case, r, first))
            except Stop: raise
            except Exception as ex:
                rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:]))
        for case, r, first in heldv:
            if not np.array_equal(first, r, equal_nan=True): rep.fail(case, 'a value returned earlier was altered by later work on other objects')
    # arrays and index arrays belonging to the user: neither altered nor frozen
    rep.section = "the user's arrays"
    from chumpy.reordering import Select
    for t in range(N(rep, 15, 80)):
        for sh in ((3,), (2, 3), (2, 2, 2), (1,), ()):
            for order in 'CF':
                a = np.array(K.g_any(rng, sh), order=order); keep = a.copy(); x = Ch(a) if rng.rand() < .5 else Ch(x=a); how = rng.randint(4); rep.count(('own', sh, order))
                if how == 1: x = Ch(0.); x.x = a
                if how == 2: x = Ch(K.g_any(rng, sh)); x.set(x=a)
                e = x * 2.; e.r; e.dr_wrt(x); x.r
                if how == 3: ch.add(a, x).r; (a + x).r; x.dot(a).r if len(sh) == 1 else None
                if not a.flags.writeable: rep.fail("the user's array of shape %s" % (sh,), 'was made read-only')
                if not np.array_equal(a, keep): rep.fail("the user's array of shape %s" % (sh,), 'was altered')
        n = rng.randint(2, 7); k = rng.randint(1, 6); idx = rng.randint(-n, n, k); keep = idx.copy(); a = K.g_any(rng, (n,)); x = Ch(a); how = rng.randint(4); case = 'index array %s into %d entries' % (idx, n)
        if how == 3: e = Ch(np.tile(a, 2).reshape(2, n)).T[idx]; want = np.tile(a, 2).reshape(2, n).T[idx]; x = None
        elif how == 2: e = x.ravel()[idx]; want = a[idx]
        elif how: e = x[idx]; want = a[idx]
        else: e = Select(a=x, idxs=idx, preferred_shape=(k,)); want = a[idx]
        rep.count(('idx', how, k))
        if not close(e.r, want, 1e-12): rep.fail(case, 'value %s, expected %s' % (arr(e.r), arr(want)))
        if x is not None and (how or (idx >= 0).all()) and not np.array_equal(dense(e.dr_wrt(x)), np.eye(n)[idx]): rep.fail(case, 'derivative %s' % arr(dense(e.dr_wrt(x))))
        e.r
        if not np.array_equal(idx, keep) or not idx.flags.writeable: rep.fail(case, 'the index array was altered to %s' % idx)
    rep.section = ''
    # assignments through views
    for t in range(N(rep, 60, 300)):
        sh = ((3,), (2, 3), (2, 2, 2), (4, 1))[rng.randint(4)]; a = K.g_any(rng, sh); keep = a.copy(); x = Ch(a); y = Ch(a); how = rng.randint(4)
        v = [lambda: x.T, lambda: x.ravel(), lambda: x[1:], lambda: x.reshape((-1,)), lambda: x[::-1].T, lambda: x][rng.randint(6)]()
        if how == 1: x.x = a
        if how == 2: x[...] = a * 2.
        held = [(q, np.array(q)) for q in (x.r, v.r, (x * 2.).r, y.r)]
        if how == 3: held.append((x.x, np.array(x.x)))
        for k in range(2):
            case = 'shape %s, assignment %d through %s' % (sh, k, type(v).__name__); rep.count(('view', t, k))
            try:
                if rng.rand() < .5: v[0] = rng.rand()
                else: v[...] = rng.rand(*v.shape)
            except Exception as ex: rep.fail(case, 'raised %s' % ex); break
            if not np.array_equal(a, keep): rep.fail(case, "the user's array was altered")
            if not np.array_equal(y.r, keep): rep.fail(case, 'a variable made from the same array was altered')
            for q, q0 in held:
                if not np.array_equal(q, q0): rep.fail(case, 'a value returned earlier was altered: %s -> %s' % (arr(q0), arr(q)))
            held.append((x.r, np.array(x.r))); held.append((v.r, np.array(v.r)))
    # integers, lists, scalars, non-contiguous input
    for v in (3, 2.5, np.float32(1.5), [1, 2, 3], np.arange(6).reshape(2, 3), np.arange(6.).reshape(2, 3).T, np.array(4.), np.array([1, 2], np.float32), True):
        for mk in (lambda: Ch(v), lambda: ch.array(v), lambda: Ch(x=np.asarray(v)), lambda: Ch(v) + 0, lambda: Ch(np.zeros(np.shape(v))) + v):
            try: readonly(rep, 'Ch(%r)' % (v,), mk().r)
            except Exception as ex: rep.fail('Ch(%r)' % (v,), 'raised %s' % ex)
    x = Ch(0.); x.x = 3; readonly(rep, 'x.x=3', x.r); x.x = np.arange(3); readonly(rep, 'x.x=ints', x.r)
    a = Ch(np.arange(3.)); e = a + a
    class U(Ch):
        dterms = 'q',
        def compute_r(self): return self.q.r.astype(np.float32)
        def compute_dr_wrt(self, wrt): pass
    readonly(rep, 'user float32', U(q=a).r)
    class U2(Ch):
        dterms = 'q',
        def compute_r(self): return 5
        def compute_dr_wrt(self, wrt): pass
    readonly(rep, 'user int', U2(q=a).r)

INDEX = [((5,), np.s_[1:3]), ((5,), np.s_[::-2]), ((5,), 2), ((5,), -1), ((2, 3), 1), ((2, 3), np.s_[:, 1]), ((2, 3), np.s_[1, 2]), ((2, 3), np.s_[:, ::-1]), ((2, 3), np.s_[...]),
         ((4,), np.array([3, 0, 2])), ((2, 3), np.array([[True, False, True], [False, True, False]])), ((2, 3), (np.array([0, 1]), np.array([2, 0]))), ((2, 2, 3), np.s_[..., 1]), ((2, 2, 3), np.s_[1, :, -1]),
         ((3,), np.s_[:]), ((3,), np.s_[3:]), ((2, 3), np.s_[0:1, 1:]), ((1,), 0), ((4,), [1, 1, 2])]

def rand_view(rng, v, a):
    """A random chain of views of the variable v, with the numpy array of flat positions it shows."""
    e, ix, desc = v, np.arange(a.size).reshape(np.atleast_1d(a).shape), 'x'
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(6)
        if ix.size < 2: k = (0, 1, 3)[k % 3]
        if k == 0: e, ix, desc = e.T, ix.T, desc + '.T'
        elif k == 1: e, ix, desc = e.ravel(), ix.ravel(), desc + '.ravel()'
        elif k == 2: e, ix, desc = e[1:], ix[1:], desc + '[1:]'
        elif k == 3: e, ix, desc = e[::-1], ix[::-1], desc + '[::-1]'
        elif k == 4 and ix.size % 2 == 0: e, ix, desc = e.reshape((2, -1)), ix.reshape((2, -1)), desc + '.reshape((2,-1))'
        elif k == 5 and ix.ndim > 1: e, ix, desc = e[:, 0], ix[:, 0], desc + '[:,0]'
        if not ix.size: break
    return e, ix, desc

def c12(rep):
    rng = rep.rng(12)
    for t in range(N(rep, 8, 40)):
        for s, i in INDEX:
            for mode in range(5):
                src = K.g_any(rng, s); keep = src.copy()
                x = Ch(src); y = Ch(src); want = src.copy()
                other = Ch(K.g_any(rng, s)); ob = np.array(other.r)
                e = (x * 2).ravel(); e.r; old = x.r; old0 = np.array(old)
                tgt = want[i]
                val = [3.25, rng.randn(*np.shape(tgt)), rng.randn(*np.shape(tgt))[..., :1] if np.ndim(tgt) else 1., rng.randint(0, 9, np.shape(tgt)), list(np.ravel(rng.randn(*np.shape(tgt)))) if np.ndim(tgt) == 1 else 2][mode]
                case = 'x%s[%s] = %s' % (s, i, val)
                try:
                    want[i] = val
                except Exception: continue
                try: x[i] = val
                except Exception as ex: rep.fail(case, 'raised %s: %s' % (type(ex).__name__, ex)); continue
                rep.count(case)
                if not np.array_equal(x.r, want): rep.fail(case, 'value is\n%s\nexpected\n%s' % (arr(x.r), arr(want)))
                if not np.array_equal(src, keep): rep.fail(case, 'the array the variable was created from was altered')
                if not np.array_equal(y.r, keep): rep.fail(case, 'another variable created from the same array was altered')
                if not np.array_equal(other.r, ob): rep.fail(case, 'another variable was altered')
                if not np.array_equal(old, old0): rep.fail(case, 'a value returned earlier was altered')
                if not np.array_equal(e.r, (want * 2).ravel()): rep.fail(case, 'an expression of the variable is stale')
        # invalid index or value: refused, nothing changed
        for s, i, val in (((3,), 5, 1.), ((3,), np.s_[0:2], [1., 2., 3.]), ((2, 3), np.s_[:, 4], 1.)):
            a = K.g_any(rng, s); x = Ch(a); e = x * 2; e.r
            try: x[i] = val; rep.fail('x[%s]=%s' % (i, val), 'was not refused')
            except Exception: pass
            rep.count(('refused', str(i)))
            if not np.array_equal(x.r, a) or not np.array_equal(e.r, 2 * a): rep.fail('x[%s]=%s' % (i, val), 'a refused assignment changed the variable')
        # through views
        for s in ((5,), (2, 3), (4,), (2, 2, 2), (1, 4), (6,), (3, 2), (1,), (1, 1)):
            for _ in range(4):
                src = K.g_any(rng, s); x = Ch(src); y = Ch(src)
                v, ix, desc = rand_view(rng, x, src)
                if v is x or not ix.size: continue
                if rng.rand() < .5: v.r; v.dr_wrt(x)
                if rng.rand() < .3: x.x = src = K.g_any(rng, s); y = Ch(src)
                keep = src.copy()
                key = [np.s_[...], 0, np.s_[::2], np.s_[-1:], np.s_[...]][rng.randint(5)]
                tgt = ix[key]; val = rng.randn(*np.shape(tgt)) if rng.rand() < .6 else 9.5
                if rng.rand() < .2: val = src.ravel()[tgt] * (1 + 1e-7) + 1e-10 # nearly what is there
                want = src.copy().ravel(); want[tgt] = val; want = want.reshape(s)
                case = 'shape %s: %s[%s] = %s' % (s, desc, key, val)
                e = x + 1; e.r
                try: v[key] = val
                except Exception as ex: rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-600:])); continue
                rep.count(case)
                if not np.array_equal(x.r, want): rep.fail(case, 'variable is\n%s\nexpected\n%s' % (arr(x.r), arr(want)))
                if not np.array_equal(v.r, np.atleast_1d(want.ravel()[ix])): rep.fail(case, 'the view shows\n%s\nexpected\n%s' % (arr(v.r), arr(want.ravel()[ix])))
                if not np.array_equal(e.r, want + 1): rep.fail(case, 'an expression of the variable is stale')
                if not np.array_equal(src, keep) or not np.array_equal(y.r, keep): rep.fail(case, 'an array or variable sharing data was altered')
        # values of any shape: broadcast or refused exactly as numpy does
        for _ in range(30):
            s = [(4,), (2, 3), (3, 2, 2), (3, 3), (1, 4)][rng.randint(5)]; src = K.g_any(rng, s); x = Ch(src); e = x * 2; e.r
            if rng.rand() < .3: v, ix, desc = x, np.arange(x.size).reshape(s), 'x'
            else: v, ix, desc = rand_view(rng, x, src)
            if not ix.size: continue
            key = [np.s_[...], np.s_[:], np.s_[1:], np.s_[::-1], 0, np.s_[..., :1], np.s_[..., 0]][rng.randint(7)]; tgt = ix[key]
            if not np.size(tgt): continue
            sh = [d if rng.rand() < .5 else 1 if rng.rand() < .7 else rng.randint(1, 5) for d in np.shape(tgt)]
            sh = sh[rng.randint(len(sh) + 1):] if rng.rand() < .4 else [1] * rng.randint(2) + sh
            val = rng.randn(*sh); want = src.copy().ravel(); case = 'shape %s: %s[%s] = value of shape %s' % (s, desc, key, sh)
            try: want[tgt] = val; refused = False
            except ValueError: refused = True
            try: v[key] = val; got = False
            except Exception as ex: got = True
            rep.count(case)
            if refused != got: rep.fail(case, 'was %s, numpy %s it' % ('refused' if got else 'accepted', 'refuses' if refused else 'accepts')); continue
            if not np.array_equal(x.r.ravel(), src.ravel() if refused else want): rep.fail(case, 'variable is\n%s\nexpected\n%s' % (arr(x.r), arr(src if refused else want.reshape(s))))
            if not np.array_equal(e.r, 2 * x.r): rep.fail(case, 'an expression of the variable is stale')
        # not a view of one variable: refused
        for mk in (lambda x, y: x + y, lambda x, y: x * 2, lambda x, y: (x + 1)[1:], lambda x, y: ch.concatenate([x, y]), lambda x, y: x.exp() if hasattr(x, 'exp') else ch.exp(x), lambda x, y: (x * y).reshape((-1,))[::-1], lambda x, y: ch.sum(x),
                   lambda x, y: ch.clip(x, -1., .5), lambda x, y: ch.clip(x, -1., .5)[::-1], lambda x, y: ch.cumsum(x), lambda x, y: ch.amax(x), lambda x, y: ch.amin(x.reshape((3, 1)), axis=0), lambda x, y: ch.mean(x), lambda x, y: ch.sort(x) * 1.,
                   lambda x, y: -x, lambda x, y: ch.floor(x), lambda x, y: ch.SumOfSquares(x), lambda x, y: ch.concatenate([x]), lambda x, y: ch.atleast_2d(x * 1.).ravel(), lambda x, y: ch.Ch(lambda q: q * 1.), lambda x, y: ch.linalg.inv(x.reshape((3, 1)).dot(y.reshape((1, 3))) + np.diag([70., 80., 90.])).ravel(),
                   lambda x, y: ch.linalg.det(x.reshape((3, 1)).dot(y.reshape((1, 3)))), lambda x, y: ch.MatVecMult(np.eye(3), x), lambda x, y: ch.dot(x, y), lambda x, y: x > y, lambda x, y: ch.transpose(x * 1.), lambda x, y: ch.tile(x + 0., 2)):
            a, b = K.g_any(rng, (3,)), K.g_any(rng, (3,)); x, y = Ch(a), Ch(b); e = mk(x, y); r0 = np.array(e.r)
            try:
                e[0] = 5.; rep.fail('assignment through %s' % type(e).__name__, 'was not refused')
            except Exception: pass
            rep.count(('refuse', type(e).__name__))
            if not (np.array_equal(x.r, a) and np.array_equal(y.r, b) and np.array_equal(e.r, r0)): rep.fail('assignment through %s' % type(e).__name__, 'a refused assignment changed something')
        x = Ch(np.arange(3.)); y = Ch(5.)
        try: x[0] = y; rep.fail('x[0] = Ch', 'assigning an object into an entry was not refused')
        except Exception: pass
        rep.count('x[0]=Ch')
        if not np.array_equal(x.r, np.arange(3.)): rep.fail('x[0] = Ch', 'a refused assignment changed the variable')
        # views of views, repeated entries (the last one counts), empty selections, refused values
        a = K.g_any(rng, (3, 4)); x = Ch(a); v = x.T[1:][:, ::-1]; w = a.copy(); w.T[1:][:, ::-1][0] = [1., 2., 3.]
        v[0] = [1., 2., 3.]; rep.count('view of view')
        if not np.array_equal(x.r, w): rep.fail('x.T[1:][:, ::-1][0] = [1,2,3]', 'variable is\n%s\nexpected\n%s' % (arr(x.r), arr(w)))
        x = Ch(a); x.T[[0, 1, 0]] = np.arange(9.).reshape(3, 3); w = a.copy(); w.T[[0, 1, 0]] = np.arange(9.).reshape(3, 3); rep.count('repeated')
        if not np.array_equal(x.r, w): rep.fail('x.T[[0,1,0]] = ...', 'variable is\n%s\nexpected\n%s' % (arr(x.r), arr(w)))
        x = Ch(a); e = x * 2; e.r; rep.count('refused through a view')
        try: x.T[0] = [1., 2.]; rep.fail('x.T[0] = two values', 'was not refused')
        except Exception: pass
        if not np.array_equal(x.r, a) or not np.array_equal(e.r, 2 * a): rep.fail('x.T[0] = two values', 'a refused assignment changed the variable')
        x = Ch(a); x.T[0:0] = 1.; x.T[np.zeros((4, 3), bool)] = 2.; rep.count('empty')
        if not np.array_equal(x.r, a): rep.fail('x.T[0:0] = 1', 'assigning to no entry changed the variable')
        # variables holding integers
        for v in (lambda x: x, lambda x: x.T, lambda x: x[1:]):
            x = Ch(0.); src = np.arange(4); x.x = src; v(x)[0] = 2.5; w = np.arange(4.); w[0 if v(x).size == 4 else 1] = 2.5; rep.count('integers')
            if not np.array_equal(x.r, w) or not np.array_equal(src, np.arange(4)): rep.fail('integer variable, entry = 2.5', 'variable is %s, expected %s' % (arr(x.r), arr(w)))
        # plain numbers
        x = Ch(3.); x.reshape((1, 1))[0, 0] = 6.; rep.count('number, view')
        if not np.array_equal(x.r, [6.]): rep.fail('Ch(3.).reshape((1,1))[0,0]=6', 'value %s' % x.r)
        x = Ch(3.); x[0] = 4.; rep.count('number[0]')
        if not np.array_equal(x.r, [4.]): rep.fail('Ch(3.)[0]=4', 'value %s' % x.r)
        x = Ch(3.); x[:] = 5.; rep.count('number[:]')
        if not np.array_equal(x.r, [5.]): rep.fail('Ch(3.)[:]=5', 'value %s' % x.r)

# ------------------------------------------------------------------------------------------------------------------ C21
def _decl(names, form):
    return names[0] if form == 0 and len(names) == 1 else list(names) if form == 1 else tuple(names)

def c21(rep):
    """constructors of user-defined operations"""
    rng = rep.rng(21)
    known = []          # live classes of earlier rounds: (class, dterms, terms, order)
    pool_d, pool_t = ['alpha', 'beta', 'gam', 'delt'], ['tone', 'ttwo', 'tthree']
    def body(ns, dn, tn, wts):
        def compute_r(self):
            out = 0.
            for n, w in zip(dn, wts): out = out + w * getattr(self, n).r ** 2
            for n in tn: out = out * getattr(self, n)[0]
            return out
        def compute_dr_wrt(self, wrt):
            acc = None
            for n, w in zip(dn, wts):
                if wrt is getattr(self, n):
                    f = 2. * w
                    for t in tn: f = f * getattr(self, t)[0]
                    J = np.diag(f * wrt.r.ravel()); acc = J if acc is None else acc + J
            return acc
        ns.update(compute_r=compute_r, compute_dr_wrt=compute_dr_wrt)
        return ns
    def define(tag):
        base = known[rng.randint(len(known))] if known and rng.rand() < .5 else None
        dn = list(rng.permutation(pool_d)[:rng.randint(1, 4)]); tn = list(rng.permutation(pool_t)[:rng.randint(0, 3)])
        ns = {}; bases = (ch.Ch,)
        inherited = None
        if base is not None:
            bases = (base[0],); inherited = base[4]
            if rng.rand() < .4: dn = base[1]
            else: ns['dterms'] = _decl(dn, rng.randint(3))
            if rng.rand() < .4: tn = base[2]
            else: ns['terms'] = _decl(tn, rng.randint(3))
        else:
            ns['dterms'] = _decl(dn, rng.randint(3))
            if tn: ns['terms'] = _decl(tn, rng.randint(3))
        if rng.rand() < .35:
            order = list(rng.permutation(list(dn) + list(tn))); ns['term_order'] = _decl(order, rng.randint(1, 3)); explicit = order
        elif inherited is not None: order = inherited; explicit = inherited
        else: order = list(tn) + list(dn); explicit = None
        wts = [float(w) for w in rng.randint(1, 9, len(dn))]
        uses = []
        def prp(self):
            uses.append(1)
            return float(getattr(self, dn[0]).r.ravel()[0])
        ns["prp"] = ch.depends_on(dn[0])(prp)
        def prq(self): return getattr(self, dn[-1]).r * 3.
        def prs(self): return sum(getattr(self, n).r.sum() for n in dn)
        if rng.rand() < .5: ns["prq"] = ch.depends_on(dn[-1])(prq)
        if rng.rand() < .3: ns["prs"] = ch.depends_on(*dn)(prs)
        cls = type('Op', bases, body(ns, dn, tn, wts))
        return (cls, list(dn), list(tn), list(order), explicit, wts)
    def make(k, tag):
        cls, dn, tn, order, explicit, wts = k
        plain = {}; vals = {}
        shared = {}
        for n in dn + tn:
            if n in tn: vals[n] = [float(rng.randint(1, 5))]; continue
            how = rng.randint(5)
            a = rng.uniform(.5, 2., [3, 3, (1, 3), 1, (1, 1)][rng.randint(5)])
            if how == 0: a = float(a.ravel()[0]) if rng.rand() < .6 else int(rng.randint(1, 4)); vals[n] = a
            elif how == 1: vals[n] = a.copy()
            elif how == 2: vals[n] = a.tolist()
            elif how == 3: vals[n] = ch.Ch(a)
            else: vals[n] = ch.Ch(a) * 1.
            plain[n] = np.atleast_1d(np.array(a, float))
        usable = [n for n in order if n in vals]
        npos = 0
        for n in order:                                    # positional only as far as the order names inputs of this class
            if n not in vals: break
            npos += 1
        npos = rng.randint(0, npos + 1)
        args = [vals[n] for n in order[:npos]]; kw = {n: vals[n] for n in vals if n not in order[:npos]}
        case = ('construct', tag, tuple(dn), tuple(tn), tuple(order), npos)
        if 'r' in kw: return None
        o = guarded(rep, case, lambda: cls(*args, **kw))
        if o is None: return None
        return case, o, vals, plain
    def verify(case, o, k, vals, plain):
        cls, dn, tn, order, explicit, wts = k
        if type(o) is not cls: rep.fail(case, 'the object has type %s' % type(o)); return
        for n in tn:
            if getattr(o, n) is not vals[n]: rep.fail(case, 'input %s was replaced by %r' % (n, getattr(o, n))); return
        for n in dn:
            g = getattr(o, n)
            if hasattr(vals[n], 'dterms'):
                if g is not vals[n]: rep.fail(case, 'input %s is not the object given' % n); return
            elif type(g) is not ch.Ch or not np.array_equal(g.r, plain[n]): rep.fail(case, 'input %s is %r, not a variable holding %s' % (n, g, plain[n])); return
        want = 0.
        for n, w in zip(dn, wts): want = want + w * plain[n] ** 2
        for n in tn: want = want * vals[n][0]
        same(rep, case, o, want)
        if o.prp != float(plain[dn[0]].ravel()[0]): rep.fail(case, 'the property depending on %s is %r, not %r' % (dn[0], o.prp, plain[dn[0]].ravel()[0])); return
        if 'prq' in cls.__dict__ and not close(o.prq, 3. * plain[dn[-1]]): rep.fail(case, 'the property depending on %s is %r' % (dn[-1], o.prq)); return
        if 'prs' in cls.__dict__ and not close(o.prs, sum(plain[n].sum() for n in dn)): rep.fail(case, 'the property depending on %s is %r' % (dn, o.prs)); return
        if len(set(plain[n].shape for n in dn)) == 1:
            for n in dn:
                x = getattr(o, n)
                if not x.dterms or type(x) is not ch.Ch: continue
                f = 1.
                for t in tn: f *= vals[t][0]
                D = np.diag(2. * f * sum(w for m, w in zip(dn, wts) if getattr(o, m) is x) * plain[n].ravel())
                J = o.dr_wrt(x)
                if J is None or not close(dense(J), D): rep.fail(case, 'derivative wrt %s: %s, expected %s' % (n, J, D)); return
    rep.section = 'constructors'
    for t in range(N(rep, 250, 2500)):
        if rep.time_left() < 0: break
        k = define(t)
        objs = []
        for _ in range(rng.randint(1, 4)):
            kk = k if rng.rand() < .6 or not known else known[rng.randint(len(known))]
            r = make(kk, t % 50)
            if r: objs.append((kk,) + r)
        for kk, case, o, vals, plain in objs:
            verify(case, o, kk, vals, plain)
        # changing an input of one object leaves the others alone
        if len(objs) > 1:
            kk, case, o, vals, plain = objs[0]
            n = kk[1][0]; new = rng.uniform(.5, 2., plain[n].shape)
            setattr(o, n, new); plain[n] = new; vals[n] = getattr(o, n)
            for kk, case, o, vals, plain in objs: verify(case + ('after a change',), o, kk, vals, plain)
        if rng.rand() < .4: known.append(k)
        if len(known) > 12: known.pop(rng.randint(12))
        del k, objs
        if t % 5 == 0: gc.collect()
    rep.section = 'classes derived from operations of the library'
    x, y = ch.Ch(rng.rand(3, 3) + .5), ch.Ch(rng.rand(3, 3) + .5)
    for nm, args in (('NanDivide', (x, y)), ('transpose', (x,)), ('rollaxis', (x, 1)), ('swapaxes', (x, 0, 1)), ('add', (x, y)), ('multiply', (x, x)), ('sum', (x, 1)), ('mean', (x,)), ('dot', (x, y)), ('amax', (x, 0)), ('maximum', (x, y)), ('sin', (x,)), ('power', (x, 2.)), ('clip', (x, .7, 1.2)), ('cumsum', (x,))):
        base = getattr(ch, nm)
        for depth in (1, 2):
            cls = base
            for _ in range(depth): cls = type('Derived', (cls,), {})
            rep.count(('derived', nm, depth))
            def go():
                d, b = cls(*args), base(*args)
                if not close(d.r, b.r) or not close(dense(d.dr_wrt(x)), dense(b.dr_wrt(x))): rep.fail(('derived', nm, depth), 'differs from the operation it derives from')
            guarded(rep, ('derived', nm, depth), go)
    from chumpy.reordering import Concatenate
    def go():
        c = type('Cat', (Concatenate,), {})(); c.dterms = ['m0', 'm1']; c.m0 = x; c.m1 = y; c.axis = 1
        import chumpy.reordering as R
        if not close(c.r, np.concatenate([x.r, y.r], 1)): rep.fail('derived Concatenate', 'differs')
        c.__getstate__()
    guarded(rep, 'derived Concatenate', go)
    rep.section = 'storage requests'
    for md, ms in ((True, False), (False, True), (False, False)):
        k = define('s'); kw = {}
        x = ch.Ch(rng.rand(4)); o = guarded(rep, ('storage', md, ms), lambda: k[0](make_dense=md, make_sparse=ms, **dict([(n, x) for n in k[1]] + [(n, [2.]) for n in k[2]])))
        if o is None: continue
        J = o.dr_wrt(x); rep.count(('storage', md, ms))
        if md and sp.issparse(J) or ms and not sp.issparse(J): rep.fail(('storage', md, ms), 'the Jacobian is %s' % type(J))
    rep.section = 'reserved names'
    for nm in ('r', 'dr_wrt', 'T', 'sum', 'shape', 'dot', 'reshape', 'compute_r', 'size'):
        for where in ('dterms', 'terms'):
            for form in range(3):
                cls = type('Bad', (ch.Ch,), {'terms' if where == 'dterms' else 'dterms': 'ok', where: _decl([nm], form) if form < 2 else ('good', nm)})
                rep.count(('reserved', nm, where, form))
                try: cls()
                except Exception: continue
                rep.fail(('reserved', nm, where, form), 'an input named %s was accepted' % nm)
