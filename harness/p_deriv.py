"""C01-C04: local derivatives, against finite differences of the same expression built afresh."""
from hlib import *
import cases as K
import scipy.special

def history(rep, entry, rng, shuffle=True, extra=1):
    name, draws, build, npf, setargs, gen = entry
    draws = list(draws)
    if shuffle:
        rng.shuffle(draws)
    # fresh object per draw
    groups = {}
    for shapes, args in draws:
        groups.setdefault((repr(args) if setargs is None else '') + (repr(shapes) if name.startswith('svd') else ''), []).append((shapes, args))
    for key, ds in groups.items():
        live = vs = None
        plan = ds + ds[:extra]
        if len(ds) > 1: plan = plan + [ds[k] for k in rng.randint(0, len(ds), 1 + len(ds) // 4)]
        seq = []
        for n, (shapes, args) in enumerate(plan):
            seq.append((shapes, args))
            arrays = [gen(rng, s) for s in shapes]
            case = '%s shapes=%s args=%s%s' % (name, shapes, args, '' if n == 0 else ' after %s' % (seq[:-1][-6:],))
            try:
                if live is not None and setargs is not None or live is not None and len(shapes) == len(vs):
                    order = rng.permutation(len(vs))
                    for i in order:
                        vs[i].x = np.array(arrays[i])
                    if setargs is not None:
                        setargs(live, *args)
                    if rng.rand() < .5: live.r
                else:
                    vs = [Ch(np.array(a)) for a in arrays]
                    live = build(vs, *args)
                if not close(live.r, fresh(build, arrays, *args), 1e-9):
                    rep.fail(case, 'value differs from the value of the same expression built afresh: %s vs %s' % (arr(live.r), arr(fresh(build, arrays, *args))))
            except Exception as e:
                rep.fail(case, 'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
                live = None
                continue
            check_jac(rep, case, live, vs, build, arrays, args, tol=5e-6, want=[svd_jac(arrays[0], *[o.r for o in ch.linalg.svd(Ch(np.array(arrays[0])))])[int(name[3])]] if name in ('svd0', 'svd1', 'svd2') else None)
            # a fresh object must agree as well
            f = [Ch(np.array(a)) for a in arrays]
            fe = build(f, *args)
            for i in range(len(vs)):
                J1, J2 = live.dr_wrt(vs[i]), fe.dr_wrt(f[i])
                rep.count(None)
                if not close(dense(J1, live.size, vs[i].size), dense(J2, fe.size, f[i].size), 1e-9):
                    rep.fail(case, 'derivative wrt operand %d after changes differs from that of the same expression built afresh\n%s\n%s' % (i, arr(dense(J1, live.size, vs[i].size)), arr(dense(J2, fe.size, f[i].size))))
            # a change of a relative size of 1e-7 is a change
            if rng.rand() < .35:
                i = rng.randint(len(vs)); arrays[i] = arrays[i] * (1 + rng.choice([1e-7, 1e-6, 3e-9]) * rng.uniform(-1, 1, np.shape(arrays[i])))
                case += ', then operand %d changed very little' % i
                try:
                    vs[i].x = np.array(arrays[i]); f = [Ch(np.array(a)) for a in arrays]; fe = build(f, *args)
                    J1, J2 = live.dr_wrt(vs[i]), fe.dr_wrt(f[i]); rep.count(None)
                    if not close(live.r, fe.r, 1e-11): rep.fail(case, 'value %s, the same expression built afresh has %s' % (arr(live.r), arr(fe.r)))
                    if not close(dense(J1, live.size, vs[i].size), dense(J2, fe.size, f[i].size), 1e-10): rep.fail(case, 'derivative\n%s\nthe same expression built afresh has\n%s' % (arr(dense(J1, live.size, vs[i].size)), arr(dense(J2, fe.size, f[i].size))))
                except Stop: raise
                except Exception as e: rep.fail(case, 'raised %s: %s' % (type(e).__name__, e)); live = None

def held(rep):
    """Jacobians handed out earlier must stay as they were."""
    store = []
    def keep(case, J):
        if J is not None:
            store.append((case, J, dense(J).copy()))
    def verify():
        for case, J, D in store:
            rep.count(None)
            if not np.array_equal(dense(J), D):
                rep.fail(case, 'a Jacobian handed out earlier was altered\nnow:\n%s\nthen:\n%s' % (arr(dense(J)), arr(D)))
    return keep, verify

def c01(rep):
    rng = rep.rng(1)
    keep, verify = held(rep)
    rounds = 2 if rep.tier == 'quick' else 6
    for rnd in range(rounds):
        un = [(n, g, s) for n, g, _ in K.UNARY for s in (K.SHAPES if rnd else K.SHAPES)]
        rng.shuffle(un)
        for n, g, s in un:
            if rnd and rep.tier == 'quick' and rng.rand() < .6: continue
            a = g(rng, s)
            build = lambda c, n=n: getattr(ch, n)(c[0])
            v = Ch(np.array(a)); e = build([v])
            case = '%s shape=%s' % (n, s)
            check_jac(rep, case, e, [v], build, [a])
            keep(case, e.dr_wrt(v))
            s2 = K.SHAPES[rng.randint(len(K.SHAPES))]
            a = g(rng, s2); v.x = np.array(a)
            check_jac(rep, case + ' -> %s' % (s2,), e, [v], build, [a])
        for s in K.SHAPES:
            a = K.g_distinct(rng, s)
            build = lambda c: ch.clip(c[0], -.3, .6)
            if np.minimum(abs(a + .3), abs(a - .6)).min() < .01: continue
            v = Ch(np.array(a)); e = build([v])
            check_jac(rep, 'clip shape=%s' % (s,), e, [v], build, [a])
            b2 = lambda c: ch.clip(c[0], -.9, .1)
            if np.minimum(abs(a + .9), abs(a - .1)).min() > .01:
                e.set(a_min=-.9, a_max=.1)
                check_jac(rep, 'clip bounds changed shape=%s' % (s,), e, [v], b2, [a])
            # limits given as arrays, which may broadcast
            for ls in (s, (2,) + tuple(s), tuple(s[1:]) if len(s) > 1 else s):
                lo = rng.uniform(-1., .2, ls); hi = lo + rng.uniform(.3, 1., ls); a3 = rng.uniform(-1.5, 1.5, s)
                if np.minimum(abs(a3 - lo), abs(a3 - hi)).min() < .01: continue
                b3 = lambda c: ch.clip(c[0], lo, hi); v3 = Ch(np.array(a3))
                check_jac(rep, 'clip shape=%s limits %s' % (s, ls), b3([v3]), [v3], b3, [a3])
            a = K.g_pos(rng, s)
            build = lambda c: ch.extras.gamma(c[0])
            v = Ch(np.array(a)); e = build([v])
            check_jac(rep, 'gamma shape=%s' % (s,), e, [v], build, [a], tol=1e-4)
        # special values
        if rnd == 0:
            v = Ch(np.array([1., np.nan, np.inf, -np.inf, -2.]))
            J = dense(ch.nan_to_num(v).dr_wrt(v)); rep.count('nan_to_num special')
            if not np.array_equal(J, np.diag([1., 0, 0, 0, 1.])): rep.fail('nan_to_num of non-finite', arr(J))
            for n, f in K.UNARY0:
                v = Ch(K.g_any(rng, (2, 3))); e = getattr(ch, n)(v); rep.count((n, 'none'))
                J = e.dr_wrt(v)
                if J is not None: rep.fail(n, 'locally constant operation reports a derivative')
            for n in K.BINARY0:
                v, w = Ch(K.g_any(rng, (2, 3))), Ch(K.g_any(rng, (3,))); e = getattr(ch, n)(v, w); rep.count((n, 'none'))
                for q in (v, w):
                    J = e.dr_wrt(q)
                    if J is not None: rep.fail(n, 'comparison reports a derivative')
            # whole exponents at zero and below it, where the power is differentiable
            a = np.array([[0., -1.5, 2.], [1., 0., -.3]])
            for k in (0., 1., 2., 3.):
                want = np.diag((k * np.power(a, max(k - 1, 0.))).ravel())
                for nm, f in (('x**%s' % k, lambda v: v**k), ('power(x, %s)' % k, lambda v: ch.power(v, k * np.ones(3))), ('power(x, Ch(%s))' % k, lambda v: ch.power(v, Ch(k)))):
                    v = Ch(a.copy()); rep.count((nm, 'zero'))
                    J = dense(f(v).dr_wrt(v), 6, 6)
                    if not close(J, want, 1e-9): rep.fail(nm + ' at zero and negative numbers', arr(J))
            for nm, f, want in (('multiply', lambda v: v * v, 2 * a), ('square', ch.square, 2 * a), ('divide', lambda v: v / 2., 0 * a + .5), ('exp', ch.exp, np.exp(a)), ('sin', ch.sin, np.cos(a)), ('multiply by zeros', lambda v: v * np.zeros((2, 3)), 0 * a), ('zero divided', lambda v: (v * 0) / 3., 0 * a)):
                v = Ch(a.copy()); rep.count((nm, 'zero')); J = dense(f(v).dr_wrt(v), 6, 6)
                if not close(J, np.diag(want.ravel()), 1e-9): rep.fail(nm + ' at zero', arr(J))
            v = Ch(np.array([1., 2., 0., 3.])); w = Ch(np.array([2., 0., 0., -1.])); e = ch.NanDivide(v, w)
            for q, wantd in ((v, [.5, 0, 0, -1.]), (w, [-.25, 0, 0, -3.])):
                J = dense(e.dr_wrt(q)); rep.count('NanDivide zero')
                if not close(J, np.diag(wantd), 1e-9): rep.fail('NanDivide with zero divisors', arr(J))
        bi = [(n, ga, gb, p) for n, ga, gb, _ in K.BINARY for p in K.PAIRS]
        rng.shuffle(bi)
        for n, ga, gb, (sa, sb) in bi:
            if rnd and rep.tier == 'quick' and rng.rand() < .6: continue
            a, b = K.fill_pair(rng, n, ga, gb, sa, sb)
            build = lambda c, n=n: getattr(ch, n)(c[0], c[1])
            vs = [Ch(np.array(a)), Ch(np.array(b))]; e = build(vs)
            case = '%s shapes=%s,%s' % (n, sa, sb)
            if rng.rand() < .5: e.r
            check_jac(rep, case, e, vs, build, [a, b])
            keep(case, e.dr_wrt(vs[0])); keep(case, e.dr_wrt(vs[1]))
            sa2, sb2 = K.PAIRS[rng.randint(len(K.PAIRS))]
            a, b = K.fill_pair(rng, n, ga, gb, sa2, sb2)
            vs[0].x = np.array(a); vs[1].x = np.array(b)
            check_jac(rep, case + ' -> %s,%s' % (sa2, sb2), e, vs, build, [a, b])
        for n, ga, gb, _ in K.BINARY:
            for s in K.SHAPES:
                if n not in ('maximum', 'minimum'): # two operands that happen to be equal
                    a = K.g_pos(rng, s); vs = [Ch(a.copy()), Ch(a.copy())]; build = lambda c, n=n: getattr(ch, n)(c[0], c[1])
                    check_jac(rep, '%s of equal operands, shape=%s' % (n, s), build(vs), vs, build, [a, a])
                    if a.size > 1:
                        b = a.copy(); b.ravel()[0] += .25; vs = [Ch(a.copy()), Ch(b)]; check_jac(rep, '%s of nearly equal operands, shape=%s' % (n, s), build(vs), vs, build, [a, b])
                a = K.g_pos(rng, s)
                if n in ('maximum', 'minimum'):
                    continue  # a tie everywhere
                build = lambda c, n=n: getattr(ch, n)(c[0], c[0])
                v = Ch(np.array(a)); e = build([v])
                check_jac(rep, '%s(x, x) shape=%s' % (n, s), e, [v], build, [a])
                build = lambda c, n=n: getattr(ch, n)(c[0], 1.5 + 0 * np.ones(s))
                v = Ch(np.array(a)); e = build([v])
                if n not in ('maximum', 'minimum') or np.abs(a - 1.5).min() > .01:
                    check_jac(rep, '%s(x, const) shape=%s' % (n, s), e, [v], build, [a])
                build = lambda c, n=n: getattr(ch, n)(c[0] * 1., c[0] * c[0])
                if n in ('maximum', 'minimum') and np.abs(a - a * a).min() < .02: continue
                v = Ch(np.array(a)); e = build([v])
                check_jac(rep, '%s(x*1, x*x) shape=%s' % (n, s), e, [v], build, [a])
    verify()

def _table(rep, table, salt, rounds):
    rng = rep.rng(salt)
    for rnd in range(rounds):
        t = list(table)
        rng.shuffle(t)
        for entry in t:
            history(rep, entry, rng)

def _sel(npf, shape):
    """the selection matrix numpy's own function gives"""
    n = int(np.prod(shape)); lab = np.asarray(npf(np.arange(1, n + 1).reshape(shape))).ravel()
    want = np.zeros((lab.size, n)); k = np.flatnonzero(lab); want[k, lab[k] - 1] = 1; return want
def sweeps():
    """one object, every argument after every other: (name, shapes, argument dicts, build, numpy)"""
    import itertools
    ax3, ax2 = range(-3, 3), range(-2, 2)
    out = []
    out.append(('swapaxes', [(2, 2, 2), (2, 3, 2)], [dict(axis1=i, axis2=j) for i in ax3 for j in ax3], lambda x, d: ch.swapaxes(x, d['axis1'], d['axis2']), lambda a, d: np.swapaxes(a, d['axis1'], d['axis2'])))
    out.append(('swapaxes4', [(2, 2, 2, 2)], [dict(axis1=i, axis2=j) for i in range(4) for j in range(4)], lambda x, d: ch.swapaxes(x, d['axis1'], d['axis2']), lambda a, d: np.swapaxes(a, d['axis1'], d['axis2'])))
    out.append(('transpose', [(2, 2, 2), (2, 3, 2)], [dict(axes=p) for p in itertools.permutations(range(3))] + [dict(axes=None), dict(axes=(-1, 0, 1)), dict(axes=[0, -1, -2]), dict(axes=(2, -2, 0))], lambda x, d: ch.transpose(x, d['axes']), lambda a, d: np.transpose(a, d['axes'])))
    out.append(('rollaxis', [(2, 2, 2), (3, 2, 2)], [dict(axis=i, start=j) for i in ax3 for j in range(-3, 4)], lambda x, d: ch.rollaxis(x, d['axis'], d['start']), lambda a, d: np.rollaxis(a, d['axis'], d['start'])))
    out.append(('roll', [(3, 3), (2, 3), (9, 1)], [dict(shift=k, axis=q) for k in (-5, -3, -1, 0, 1, 2, 3, 4) for q in (None, 0, 1, -1)] + [dict(shift=(1, 2), axis=(0, 1)), dict(shift=(2, 1), axis=(0, 1)), dict(shift=[1, 1], axis=[1, 0]), dict(shift=1, axis=(0, 1))], lambda x, d: ch.roll(x, d['shift'], d['axis']), lambda a, d: np.roll(a, d['shift'], d['axis'])))
    out.append(('rot90', [(2, 2), (3, 3), (2, 3), (2, 2, 2)], [dict(k=k) for k in range(-5, 6)], lambda x, d: ch.rot90(x, d['k']), lambda a, d: np.rot90(a, d['k'])))
    out.append(('tile', [(2, 2), (4, 1), (1, 4)], [dict(reps=r) for r in (1, 2, 3, (2,), (1, 2), (2, 1), (2, 2), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 4), (4, 1), (2, 1, 2), [3, 1], (1, 3), (3, 2), (2, 3), (1, 6), (6,))], lambda x, d: ch.tile(x, d['reps']), lambda a, d: np.tile(a, d['reps'])))
    out.append(('repeat', [(2, 2)], [dict(repeats=k, axis=q) for k in (1, 2, 3, [1, 2], [2, 1], (0, 3), [3, 0]) for q in (0, 1, -1, -2)] + [dict(repeats=k, axis=None) for k in (1, 2, [1, 2, 1, 2], [2, 1, 2, 1], [0, 0, 3, 3])], lambda x, d: ch.repeat(x, d['repeats'], d['axis']), lambda a, d: np.repeat(a, d['repeats'], d['axis'])))
    out.append(('diag', [(3,), (3, 3), (2, 4), (4, 2)], [dict(k=k) for k in (-1, 0, 1, 2)], lambda x, d: ch.diag(x, d['k']), lambda a, d: np.diag(a, d['k'])))
    out.append(('diagflat', [(3,), (2, 2), (1, 4)], [dict(k=k) for k in (-2, -1, 0, 1, 2)], lambda x, d: ch.diagflat(x, d['k']), lambda a, d: np.diagflat(a, d['k'])))
    out.append(('reshape', [(2, 6), (3, 4), (12,)], [dict(newshape=q) for q in ((12,), (3, 4), (4, 3), (2, -1), (1, 12), (2, 3, 2), -1)], lambda x, d: ch.reshape(x, d['newshape']), lambda a, d: np.reshape(a, d['newshape'])))
    out.append(('concatenate', [(2, 2), (2, 2, 2)], [dict(axis=k) for k in ax2], lambda x, d: ch.concatenate([x, x, x], axis=d['axis']), lambda a, d: np.concatenate([a, a, a], axis=d['axis'])))
    out.append(('sort', [(3, 3), (2, 4), (2, 2, 2)], [dict(axis=k) for k in (0, 1, -1, -2)], lambda x, d: ch.sort(x, d['axis']), lambda a, d: np.sort(a, d['axis'])))
    return out
def sweep(rep, rng):
    for name, shapes, args, build, npf in sweeps():
        plan = [(s, d) for s in shapes for d in args]; rng.shuffle(plan)
        if rep.tier == 'quick' and len(plan) > 60: plan = plan[:60] + [p for p in plan[60:] if rng.rand() < .5]
        x = e = None
        for n, (s, d) in enumerate(plan):
            case = '%s of shape %s with %s, after other shapes and arguments' % (name, s, d); rep.count((name, s, repr(d)))
            a = K.g_distinct(rng, s)
            try:
                if e is None: x = Ch(a); e = build(x, d)
                elif rng.rand() < .5: x.x = a; e.set(**d)
                else: e.set(**d); x.x = a
                r = e.r if rng.rand() < .5 else None
                J = dense(e.dr_wrt(x), None if r is None else r.size, x.size)
                if name == 'sort': want = _sel(lambda l: np.take_along_axis(l, np.argsort(a, d['axis']), d['axis']), s)
                elif name == 'concatenate':
                    n = x.size; lab = np.asarray(npf(np.arange(n).reshape(s), d)).ravel(); want = np.zeros((lab.size, n)); want[np.arange(lab.size), lab] = 1
                else: want = _sel(lambda l: npf(l, d), s)
                if not np.array_equal(J, want): rep.fail(case, 'the Jacobian is not the selection matrix\n%s\n%s' % (arr(J), arr(want)))
                if not close(e.r, np.atleast_1d(npf(a, d))): rep.fail(case, 'value %s' % arr(e.r))
            except Exception as ex:
                rep.fail(case, 'raised %s: %s' % (type(ex).__name__, ex)); e = None

def c02(rep):
    _table(rep, K.REARR, 2, 1 if rep.tier == 'quick' else 5)
    rng = rep.rng(22)
    rep.section = 'random arguments'
    for _ in range(3 if rep.tier == 'quick' else 15): _table(rep, K.random_table(rng, K.RAND2), 200 + _, 1)
    sweep(rep, rng)
    # selection: changing indices
    for t in range(20 if rep.tier == 'quick' else 100):
        v = Ch(K.g_any(rng, (6,))); s = v[[0, 2, 4]]
        s.dr_wrt(v)
        for k in range(3):
            idx = rng.randint(0, 6, rng.randint(1, 6))
            s.set(idxs=idx, preferred_shape=(len(idx),))
            if rng.rand() < .3: v.x = K.g_any(rng, (6 + rng.randint(3),))
            J = dense(s.dr_wrt(v)); want = np.eye(v.size)[idx]; rep.count(('select', tuple(idx)))
            if not np.array_equal(J, want): rep.fail('selection after changing indices to %s' % idx, arr(J))
    # selections of a derived expression whose variable is given another size
    for t in range(20 if rep.tier == 'quick' else 100):
        n0 = rng.randint(4, 8); v = Ch(K.g_any(rng, (n0,)))
        inner = [lambda v: v * 2., lambda v: ch.concatenate([v, v]), lambda v: v.reshape(1, -1).ravel(), lambda v: ch.sin(v)][t % 4](v)
        key = [np.s_[1:4], np.array([0, 3, 1]), np.s_[::-2], 2, np.s_[-2:]][rng.randint(5)]
        s = inner[key]; idx = [np.asarray(k) for k in [np.arange(inner.size)[key]]][0].ravel()
        for k in range(3):
            J = dense(s.dr_wrt(v), idx.size, v.size); want = dense(inner.dr_wrt(v))[idx]; rep.count(('select of derived', t, k))
            if not close(J, want): rep.fail('selection %s of a derived expression after its variable has %d entries' % (key, v.size), '%s\n%s' % (arr(J), arr(want)))
            if not close(np.ravel(s.r), np.ravel(inner.r)[idx]): rep.fail('selection %s of a derived expression' % (key,), 'value')
            v.x = K.g_any(rng, (n0 + rng.randint(0, 4),))
    # all terms of a concatenation change their shapes at once
    for t in range(15 if rep.tier == 'quick' else 80):
        pool3 = [(2, 3), (3, 2), (1, 6), (6, 1)]; k = rng.randint(1, 4); ax = [0, 1, -1][rng.randint(3)]; sh = pool3[rng.randint(4)]
        xs = [Ch(K.g_any(rng, sh)) for _ in range(k)]; e = ch.concatenate(xs, axis=ax); up = e * 2.
        for st in range(4):
            rep.count(('concat.shapes', t, st)); case = 'concatenation (axis %d) of %d terms of shape %s after other shapes of the same size' % (ax, k, sh)
            w = np.concatenate([x.r for x in xs], ax); lab = np.concatenate([np.arange(i * 6, i * 6 + 6).reshape(sh) for i in range(k)], ax).ravel()
            try:
                if rng.rand() < .5 and not close(up.r, 2 * w): rep.fail(case, 'value\n%s\nexpected\n%s' % (arr(up.r), arr(2 * w)))
                for i in range(k):
                    J = dense(up.dr_wrt(xs[i]), 6 * k, 6); want = np.zeros((6 * k, 6)); rows = np.flatnonzero(lab // 6 == i); want[rows, lab[rows] % 6] = 2.
                    if not close(J, want): rep.fail(case, 'derivative wrt %d\n%s\nexpected\n%s' % (i, arr(J), arr(want)))
                if not close(up.r, 2 * w): rep.fail(case, 'value\n%s\nexpected\n%s' % (arr(up.r), arr(2 * w)))
            except Stop: raise
            except Exception as ex: rep.fail(case, 'raised %s: %s' % (type(ex).__name__, ex))
            sh = pool3[rng.randint(4)]
            for i in rng.permutation(k): xs[i].x = K.g_any(rng, sh)
            if rng.rand() < .3: ax = [0, 1, -1][rng.randint(3)]; e.axis = ax
    # replacing terms of a concatenation
    for t in range(20 if rep.tier == 'quick' else 100):
        xs = [Ch(K.g_any(rng, (rng.randint(1, 4), 2))) for _ in range(4)]
        e = ch.concatenate([xs[0], xs[1], xs[2]])
        order = [0, 1, 2]
        for k in range(4):
            for i in range(4):
                J = e.dr_wrt(xs[i])
                blocks = [np.eye(xs[j].size) if j == i else np.zeros((xs[j].size, xs[i].size)) for j in order]
                want = np.vstack(blocks); rep.count(('concat.replace', tuple(order), i))
                D = dense(J, want.shape[0], want.shape[1])
                if not close(D, want): rep.fail('concatenation after replacing terms, order %s wrt %d' % (order, i), '%s\n%s' % (arr(D), arr(want)))
            w = rng.randint(3)
            if rng.rand() < .7:
                order[w] = rng.randint(4); setattr(e, 'm%d' % w, xs[order[w]])
            else:
                xs[order[w]].x = K.g_any(rng, (rng.randint(1, 4), 2))

def c03(rep):
    _table(rep, K.RED, 3, 1 if rep.tier == 'quick' else 5)
    rng = rep.rng(33)
    rep.section = 'random arguments'
    for _ in range(3 if rep.tier == 'quick' else 15): _table(rep, K.random_table(rng, K.RAND3), 300 + _, 1)
    # arrays with unusual memory layout, and NaN-ignoring extrema
    base = K.g_distinct(rng, (3, 4))
    for n in ('amax', 'amin', 'sum', 'mean', 'nanmax', 'nanmin'):
        for lay, f in (('F', np.asfortranarray), ('strided', lambda a: np.repeat(a, 2, axis=1)[:, ::2]), ('bcast', lambda a: np.broadcast_to(a[:, :1], a.shape) if n in ('sum', 'mean') else a[:, :1])):
            for ax in (None, 0, 1, -1):
                a = f(base)
                build = lambda c, n=n, ax=ax: getattr(ch, n)(c[0], axis=ax)
                v = Ch(0.); v.x = a
                if n not in ('sum', 'mean') and lay == 'bcast' and False: continue
                check_jac(rep, '%s layout=%s axis=%s' % (n, lay, ax), build([v]), [v], build, [np.array(a)])
    a = base.copy(); a[0, 1] = np.nan; a[2, 2] = np.nan
    for n in ('nanmax', 'nanmin'):
        for ax in (None, 0, 1):
            v = Ch(a); e = getattr(ch, n)(v, axis=ax); J = dense(e.dr_wrt(v)); rep.count((n, 'nan', ax))
            arg = getattr(np, n.replace('nan', 'nanarg'))(a, axis=ax)
            want = np.zeros((e.size, a.size))
            for k in range(e.size):
                j = arg if ax is None else (np.ravel_multi_index((arg[k], k), a.shape) if ax == 0 else np.ravel_multi_index((k, arg[k]), a.shape))
                want[k, j] = 1
            if not close(J, want): rep.fail('%s with NaN axis=%s' % (n, ax), arr(J))
    # zero entries
    for s in ((1,), (3,), (2, 2), ()):
        for what, f, fv in (('SumOfSquares', lambda v: ch.SumOfSquares(v), lambda a: 2 * a.ravel()[None]), ('sum of squares', lambda v: ch.sum(v**2), lambda a: 2 * a.ravel()[None]), ('dot', lambda v: ch.dot(v.ravel(), v.ravel()), lambda a: 2 * a.ravel()[None]),
                ('mean', lambda v: ch.mean(v), lambda a: np.ones((1, a.size)) / a.size), ('cumsum', lambda v: ch.cumsum(v), lambda a: np.tril(np.ones((a.size, a.size))))):
            a = K.g_any(rng, s); a = np.where(rng.rand(*s) < .6, 0., a) if s else np.asarray(0.)
            v = Ch(np.array(a)); rep.count((what, 'zeros', s)); J = dense(f(v).dr_wrt(v), *fv(a).shape)
            if not close(J, fv(a), 1e-9): rep.fail('%s of %s' % (what, arr(a)), arr(J))
    # sparse constant matrix
    M = sp.csc_matrix(K._M); v = Ch(K.g_any(rng, (3,))); e = ch.MatVecMult(M, v); rep.count('MatVecMult sparse')
    if not close(dense(e.dr_wrt(v)), K._M) or not close(e.r, K._M.dot(v.r)): rep.fail('MatVecMult sparse', 'wrong')
    e.mtx = sp.csr_matrix(K._M * 2); rep.count('MatVecMult changed')
    if not close(dense(e.dr_wrt(v)), 2 * K._M) or not close(e.r, 2 * K._M.dot(v.r)): rep.fail('MatVecMult changed matrix', 'wrong')

def svd_jac(a, U, S, W):
    """derivatives of the outputs of the svd of a, from the textbook formulas"""
    out = [[], [], []]; V = W.T; N = S.size
    F = np.array([[0. if i == j else 1. / (S[j]**2 - S[i]**2) for j in range(N)] for i in range(N)])
    for k in range(a.size):
        E = np.zeros(a.size); E[k] = 1.; E = E.reshape(a.shape); P = U.T.dot(E).dot(V); D = np.diag(S); Di = np.diag(1. / S)
        dU = U.dot(F * (P.dot(D) + D.dot(P.T))) + (E.dot(V) - U.dot(U.T.dot(E).dot(V))).dot(Di)
        dV = V.dot(F * (D.dot(P) + P.T.dot(D))) + (E.T.dot(U) - V.dot(V.T.dot(E.T).dot(U))).dot(Di)
        out[0].append(dU.ravel()); out[1].append(np.diag(P)); out[2].append(dV.T.ravel())
    return [np.array(o).T for o in out]

def c04(rep):
    _table(rep, K.LIN, 4, 1 if rep.tier == 'quick' else 6)
    rng = rep.rng(44)
    # determinant vs log-determinant sign object, several matrices
    for t in range(3 if rep.tier == 'quick' else 20):
        A = K.g_inv(rng, (3, 3)); B = K.g_inv(rng, (2, 2)) * 1.
        build = lambda c: ch.linalg.slogdet(c[0], c[1])[1]
        vs = [Ch(A.copy()), Ch(B.copy())]; e = build(vs)
        check_jac(rep, 'slogdet of two matrices', e, vs, build, [A, B])
        s, l = ch.linalg.slogdet(vs[0]); rep.count('slogdet sign')
        if s.dr_wrt(vs[0]) is not None: rep.fail('slogdet sign', 'reports a derivative')
        # the same object as matrix and as right hand side
        a = K.g_full(rng, (3, 2))
        for nm, build in (('solution', lambda c: ch.linalg.lstsq(c[0], c[0])[0]), ('residuals', lambda c: ch.linalg.lstsq(c[0], c[0] * c[0])[1])):
            v = Ch(a.copy()); check_jac(rep, 'lstsq of a matrix and itself: ' + nm, build([v]), [v], build, [a])
        # a small singular value
        for sz in ((3, 2), (2, 3), (3, 3)):
            u, s_, w = np.linalg.svd(K.g_full(rng, sz), full_matrices=False)
            for ratio in (1e-3, 1e-5, 1e-7):
                s_[-1] = s_[0] * ratio; a = (u * s_).dot(w); v = Ch(a.copy()); outs = ch.linalg.svd(v); got = [dense(o.dr_wrt(v)) for o in outs]; want = svd_jac(a, *[o.r for o in outs])
                for k in range(3):
                    rep.count(('svd small', sz, ratio, k))
                    if not close(got[k], want[k], 1e-4 if ratio > 1e-6 else 1e-2): rep.fail('svd output %d of a %s matrix with singular values %s' % (k, sz, s_), '%s\nexpected\n%s' % (arr(got[k]), arr(want[k])))
        # composite: through other operations
        build = lambda c: ch.linalg.inv(c[0].dot(c[0].T) + 1.).dot(c[0])
        a = K.g_inv(rng, (2, 2)); v = Ch(a.copy()); e = build([v])
        check_jac(rep, 'inv composite', e, [v], build, [a])
        a = K.g_inv(rng, (2, 2)); v.x = a.copy()
        check_jac(rep, 'inv composite changed', e, [v], build, [a])
        build = lambda c: (lambda u, s, w: u.dot(ch.diag(s)).dot(w) * 2. + s[0])(*ch.linalg.svd(c[0]))
        for s in ((3, 2), (2, 3)):
            a = K.g_full(rng, s); v = Ch(a.copy()); e = build([v])
            check_jac(rep, 'svd composite', e, [v], build, [a])
            a = K.g_full(rng, s); v.x = a.copy()
            check_jac(rep, 'svd composite changed', e, [v], build, [a])
