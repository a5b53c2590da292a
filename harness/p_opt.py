"""C15-C18: the minimizers, observed from outside (evaluation points, reported steps, final variables)."""
import signal
from hlib import *
import chumpy.optimization as opt
import chumpy.optimization_internal as oi
import scipy.optimize

def N(rep, q, t): return q if rep.tier == 'quick' else t

class Probe(Ch):
    """Passes its input through and records every point at which the objective is evaluated."""
    dterms = 'res',
    terms = 'log', 'watch'
    def compute_r(self):
        self.log.append([np.array(w.r) for w in self.watch])
        return self.res.r
    def compute_dr_wrt(self, wrt):
        if wrt is self.res: return sp.eye(self.res.size, self.res.size) if self.res.size > 1 else np.array([[1.]])

def problems(rng):
    """name, variables' starting arrays, residual builder on Chs, numpy residual"""
    kind = rng.randint(9)
    n = rng.randint(1, 4)
    if kind == 0:
        A = rng.randn(n + 2, n); b = rng.randn(n + 2)
        return 'linear', [rng.randn(n) * 3], lambda v: ch.MatVecMult(A, v[0]) - b, lambda a: A.dot(a[0].ravel()) - b
    if kind == 1:
        return 'rosen', [np.array([-1.2, 1.]) + rng.randn(2) * .5], lambda v: ch.concatenate([10. * (v[0][1:] - v[0][:1]**2), 1. - v[0][:1]]), lambda a: np.array([10 * (a[0][1] - a[0][0]**2), 1 - a[0][0]])
    if kind == 2:
        x0, y0 = rng.randn(3) * .5, rng.randn(3) * .5
        return 'beale', [x0, y0], lambda v: ch.concatenate([1.5 - v[0] + v[0] * v[1], 2.25 - v[0] + v[0] * v[1]**2., 2.625 - v[0] + v[0] * v[1]**3.]), \
            lambda a: np.concatenate([1.5 - a[0] + a[0] * a[1], 2.25 - a[0] + a[0] * a[1]**2, 2.625 - a[0] + a[0] * a[1]**3])
    if kind == 3:
        t = rng.uniform(.5, 3, n)
        return 'log', [rng.uniform(.02, .5, n)], lambda v: ch.log(v[0]) - np.log(t), lambda a: np.log(a[0]) - np.log(t)
    if kind == 4:
        return 'sqrt', [rng.uniform(.01, .4, n)], lambda v: ch.concatenate([v[0]**.5 * 3 - 1., v[0] + 2.]), lambda a: np.concatenate([np.power(a[0], .5) * 3 - 1, a[0] + 2])
    if kind == 5:
        return 'exp', [rng.uniform(2, 5, n)], lambda v: ch.exp(v[0] * v[0]) - 2., lambda a: np.exp(a[0] * a[0]) - 2
    if kind == 6:
        return 'atan', [rng.uniform(2., 5., n)], lambda v: ch.arctan(v[0]), lambda a: np.arctan(a[0])
    if kind == 7:
        return 'number', [np.array(rng.uniform(1, 4))], lambda v: v[0] * v[0] - 2., lambda a: np.atleast_1d(a[0] * a[0] - 2)
    return 'matrix', [rng.randn(2, 2), rng.randn(2)], lambda v: ch.concatenate([(v[0].dot(v[1]) - np.array([1., 2.])) * (1. + ch.sum(v[0]**2.)), v[0].ravel() * .5 - .2, v[1] * .3]), \
        lambda a: np.concatenate([(a[0].dot(a[1]) - np.array([1., 2.])) * (1. + np.sum(a[0]**2)), a[0].ravel() * .5 - .2, a[1] * .3])

def sse(r): return float(np.sum(np.asarray(r)**2))

def run_dogleg(rng, prob, **options):
    name, arrays, build, ref = prob
    vs = [Ch(np.array(a)) for a in arrays]
    log, steps = [], []
    p = Probe(res=build(vs), log=log, watch=list(vs))
    box = {}
    def on_step(o):
        box['o'] = o
        steps.append((len(log), [np.array(v.r) for v in vs], np.array(o.r), np.array(o.x.r).ravel()))
    style = rng.randint(3)
    obj = p if style == 0 else ([p] if style == 1 else dict(a=p))
    opts = dict(options); opts['disp'] = False
    ch.minimize(obj, x0=list(vs), method='dogleg', callback=on_step, options=opts)
    return vs, log, steps, box.get('o'), p

def flat(l): return np.concatenate([np.ravel(a) for a in l])

def c15(rep):
    def ring(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, ring)
    rep.section = 'not a number'; c15_nan(rep); rep.section = ''
    rng = rep.rng(15)
    for t in range(N(rep, 60, 600)):
        if rep.time_left() < 0: break
        prob = problems(rng); name, arrays, build, ref = prob
        o = {}
        if rng.rand() < .6: o['maxiter'] = int(rng.choice([1, 2, 3, 7, 30]))
        else: o['maxiter'] = 40
        if rng.rand() < .5: o['max_fevals'] = int(rng.choice([1, 2, 3, 4, 5, 9, 25]))
        if rng.rand() < .5: o['delta_0'] = float(rng.choice([1e-3, .1, 1., 10., 1e4]))
        if rng.rand() < .2: o['e_3'] = float(rng.choice([1e-3, .5]))
        if rng.rand() < .2: o['treat_as_dense'] = True
        case = '%s start %s options %s' % (name, [arr(a) for a in arrays], o)
        try: vs, log, steps, obj, p = run_dogleg(rng, prob, **o)
        except Exception as ex:
            if 'Singular' in str(ex) or 'SVD' in str(ex): continue
            rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:])); continue
        rep.count(case, case if t < 3 else None)
        shp = [np.shape(a) for a in arrays]
        rs = lambda vals: ref([v.reshape(s) for v, s in zip(vals, shp)])
        s0 = sse(rs([np.array(a) for a in arrays]))
        seq = [sse(rs(v)) for _, v, _, _ in steps]
        if not steps: rep.fail(case, 'no step was reported'); continue
        if not close([seq[0]], [s0], 1e-9): rep.fail(case, 'first report is not of the starting point')
        for (k, v, r, x), s in zip(steps, seq):
            if not close(r.ravel(), rs(v).ravel(), 1e-8): rep.fail(case, 'reported residuals are not those of the free variables at that step')
        eps = 1e-12 * (1 + abs(seq[0]))
        for i in range(1, len(seq)):
            if not seq[i] <= seq[i - 1] + 1e-13 * abs(seq[i - 1]): rep.fail(case, 'sum of squares grew from one reported step to the next: %r -> %r (step %d)' % (seq[i - 1], seq[i], i))
        final = [np.array(v.r) for v in vs]
        if not all(np.array_equal(a, b) for a, b in zip(final, steps[-1][1])):
            rep.fail(case, 'final variables %s are not those of the last reported step %s' % (final, steps[-1][1]))
        if not np.array_equal(flat(final), flat([np.array(v.r) for v in vs])): rep.fail(case, 'unstable final variables')
        sf = sse(rs(final))
        if not sf <= s0 * (1 + 1e-13): rep.fail(case, 'final sum of squares %r is larger than the initial %r' % (sf, s0))
        if not close(np.asarray(p.r).ravel(), rs(final).ravel(), 1e-8): rep.fail(case, 'objective is stale after minimization')
        # budget
        mi = o['maxiter']
        if len(steps) - 1 > max(1, mi): rep.fail(case, '%d steps accepted with maxiter=%d' % (len(steps) - 1, mi))
        distinct = 1
        for i in range(1, len(log)):
            distinct += 1
        evals = getattr(obj, 'fevals', None)
        mf = o.get('max_fevals')
        if mf is not None:
            pts = [flat(l) for l in log]
            trials = 1 + sum(1 for i in range(1, len(pts)) if not np.array_equal(pts[i], pts[i - 1]) or True)
            if evals is not None and evals > max(2, mf): rep.fail(case, '%d function evaluations with max_fevals=%d' % (evals, mf))
            # evaluations of the objective itself; the check of p.r above may add one
            if len(pts) > max(2, mf) + 1: rep.fail(case, '%d evaluations of the objective with max_fevals=%d' % (len(pts), mf))

def c15_nan(rep):
    """evaluations that are not a number at the start or after some step: the minimizer returns"""
    rng = rep.rng(1515)
    class NaNs(Ch):
        dterms = 'a',
        def compute_r(self):
            self.n = getattr(self, 'n', 0) + 1
            if self.n > 3000: raise OverflowError('does not end')
            r = self.a.r * 2. - 1.
            if self.n > self.rfrom: r = r * np.nan
            return r
        def compute_dr_wrt(self, wrt):
            if wrt is self.a:
                self.m = getattr(self, 'm', 0) + 1
                return np.diag(2. + 0. * self.a.r) * (np.nan if self.m > self.jfrom else 1.)
    for rfrom in (0, 1, 2, 3, 10**9):
        for jfrom in (0, 1, 2, 10**9):
            for d0 in (None, .1, np.nan):
                x = Ch(rng.rand(3)); p = NaNs(a=x * 1.); p.__dict__['rfrom'] = rfrom; p.__dict__['jfrom'] = jfrom
                case = 'residuals NaN after %s evaluations, Jacobians after %s, delta_0 %s' % (rfrom, jfrom, d0); rep.count(('nan', rfrom, jfrom, d0))
                signal.alarm(20)
                try: ch.minimize(p, x0=[x], method='dogleg', options=dict(maxiter=20, disp=False, delta_0=d0))
                except (TimeoutError, OverflowError): rep.fail(case, 'the minimizer does not return')
                except Exception as ex: pass
                finally: signal.alarm(0)

def ref_dogleg(J, r, delta):
    """The step the statement prescribes; returns step, new delta."""
    g = -J.T.dot(r); A = J.T.dot(J)
    Jg = J.dot(g)
    sd = g.dot(g) / Jg.dot(Jg) * g
    if delta is not None and np.linalg.norm(sd) >= delta:
        return delta / np.linalg.norm(sd) * sd, delta, 'cauchy'
    gn = np.linalg.solve(A, g)
    if delta is None or np.linalg.norm(gn) <= delta:
        return gn, (np.linalg.norm(gn) if delta is None else delta), 'gn'
    d = gn - sd
    a, b, c = d.dot(d), 2 * sd.dot(d), sd.dot(sd) - delta**2
    beta = (-b + np.sqrt(max(b * b - 4 * a * c, 0.))) / (2 * a)
    return sd + beta * d, delta, 'between'

def c16(rep):
    rng = rep.rng(16)
    kinds = {}
    for t in range(N(rep, 100, 800)):
        if rep.time_left() < 0: break
        prob = problems(rng); name, arrays, build, ref = prob
        o = dict(maxiter=int(rng.choice([3, 8, 25])))
        if rng.rand() < .75: o['delta_0'] = float(rng.choice([1e-3, .05, .3, 1., 3., 20.]))
        if rng.rand() < .3: o['treat_as_dense'] = True
        case = '%s start %s options %s' % (name, [arr(a) for a in arrays], o)
        try: vs, log, steps, obj, p = run_dogleg(rng, prob, **o)
        except Exception as ex:
            if 'Singular' in str(ex): continue
            rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:])); continue
        shp = [np.shape(a) for a in arrays]; sizes = [int(np.prod(s)) for s in shp]
        def split(x):
            out, k = [], 0
            for s, z in zip(shp, sizes): out.append(x[k:k + z].reshape(s)); k += z
            return out
        f = lambda x: np.asarray(ref(split(x))).ravel()
        def jac(x):
            return np.hstack([fd(lambda a: ref(a), split(x), i, h=1e-4) for i in range(len(shp))])
        accepted_at = dict((k, None) for k, _, _, _ in steps)
        pts = [flat(l) for l in log]
        cur = pts[0]; delta = o.get('delta_0'); k = 1
        nsteps = 0
        while k < len(pts):
            x = pts[k]
            if np.array_equal(x, cur): k += 1; continue # re-evaluation at the current point
            J, r = jac(cur), f(cur)
            if not (np.all(np.isfinite(J)) and np.all(np.isfinite(r))): break
            if J.shape[0] < J.shape[1] or np.linalg.cond(J) > 1e4: break
            h, delta2, kind = ref_dogleg(J, r, delta)
            step = x - cur
            nsteps += 1; kinds[kind] = kinds.get(kind, 0) + 1
            rep.count((case, nsteps))
            nh = np.linalg.norm(h)
            if np.linalg.norm(step) > delta2 * (1 + 1e-5) + 1e-9 * (1 + np.linalg.norm(cur)):
                rep.fail(case, 'step %d has length %r, outside the trust region of radius %r' % (nsteps, np.linalg.norm(step), delta2)); break
            near = False
            if delta is not None:
                g = -J.T.dot(r); sdn = np.linalg.norm(g)**3 / np.linalg.norm(J.dot(g))**2
                near = abs(sdn - delta) < 1e-4 * delta or abs(np.linalg.norm(np.linalg.solve(J.T.dot(J), g)) - delta) < 1e-4 * delta
            if not close(step, h, 1e-4) and not near and np.linalg.norm(step - h) > 1e-4 * nh + 1e-9 * (1 + np.linalg.norm(cur)):
                rep.fail(case, 'step %d from %s with radius %r is %s, expected the %s step %s' % (nsteps, arr(cur), delta, arr(step), kind, arr(h))); break
            delta = delta2
            fn = f(x)
            gain = sse(r) - sse(fn)
            g = -J.T.dot(r)
            pred = 2 * g.dot(step) - step.dot(J.T.dot(J).dot(step))
            if not abs(pred) > 1e-10 * sse(r): break
            rho = gain / pred
            if gain == gain and abs(gain) < 1e-9 * (sse(r) + 1e-30): break
            if abs(rho - .9) < 1e-3 or abs(rho - .05) < 1e-3: break
            if gain > 0 and rho > .9: delta = max(delta, 2.5 * np.linalg.norm(step))
            elif not (gain > 0 and rho >= .05): delta = delta * .25
            if gain > 0: cur = x
            k += 1
    rep.samples.append('step kinds seen: %s' % kinds)
    # singular systems: the Gauss-Newton step is a least-squares solution of A d = g
    for t in range(N(rep, 40, 400)):
        n = rng.randint(1, 4); m = n + rng.randint(0, 3); J = rng.randn(m, n); r = rng.randn(m); kind = rng.randint(4)
        if kind == 0 and n > 1: J[:, -1] = 0.
        elif kind == 1 and n > 1: J[:, -1] = J[:, 0]
        elif kind == 2 and n > 1: J[:, -1] = J[:, 0] * 2.; J[:, :] = np.round(J * 4); J[:, -1] = J[:, 0] * 2
        if not J.any() or np.linalg.svd(J)[1][0] > 1e4 * min(w for w in np.linalg.svd(J)[1] if w > 1e-9): continue
        A = J.T.dot(J)
        if np.linalg.cond(J) > 1e4:                # an almost singular system may be solved to garbage: only those both solvers refuse
            try: np.linalg.solve(A, np.ones(n)); continue
            except np.linalg.LinAlgError: pass
            if n > 1 and np.isfinite(scipy.sparse.linalg.spsolve(sp.csc_matrix(A), np.ones(n))).all(): continue
        tgt = r + rng.randn(m); x = Ch(np.zeros(n)); e = ch.MatVecMult(J if rng.rand() < .5 else sp.csc_matrix(J), x) - tgt
        g = J.T.dot(tgt); want = np.linalg.lstsq(J.T.dot(J), g, rcond=1e-9)[0]; case = 'least squares |J x - t|, J=%s t=%s' % (arr(J), arr(tgt)); seen = []
        try: ch.minimize(e, x0=[x], method='dogleg', callback=lambda o: seen.append(np.array(x.r)), options=dict(maxiter=1, disp=False, e_1=0., e_2=0., e_3=0.))
        except Exception as ex: rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:])); continue
        rep.count(('singular', kind, n, m)); d = np.array(x.r); lim = max(1., np.abs(g).max())
        if np.abs(d).max() < 1e6 * np.abs(want).max() and np.abs(J.T.dot(J).dot(d) - g).max() > 1e-5 * lim: rep.fail(case, 'the first step %s does not solve the normal equations; expected for instance %s' % (arr(d), arr(want)))
    # the state object on its own
    DS = getattr(oi, 'DoglegState', None)
    if DS is not None and hasattr(DS, 'update_step') and hasattr(DS, 'updateRadius'):
        for t in range(N(rep, 200, 3000)):
            n = rng.randint(1, 4); m = n + rng.randint(0, 3)
            J = rng.randn(m, n) * (10. ** rng.randint(-2, 3)); r = rng.randn(m)
            if np.linalg.cond(J) > 1e4: continue
            delta = None if rng.rand() < .1 else float(10. ** rng.uniform(-3, 2))
            try:
                st = DS(delta=delta, solve=None); st.J = J; st.p = np.zeros(n); st.r = r; st.start_iteration(); st.update_step()
                h, d2, kind = ref_dogleg(J, r, delta)
                got = np.asarray(st.step).ravel(); d_now = st.delta
                if rng.rand() < .5: st.update_step(); got2 = np.asarray(st.step).ravel()
                else: got2 = got
            except AttributeError: break
            rep.count(('state', t))
            case = 'state J=%s r=%s delta=%s' % (arr(J), arr(r), delta)
            if np.linalg.norm(got - h) > 1e-6 * np.linalg.norm(h) or np.linalg.norm(got2 - h) > 1e-6 * np.linalg.norm(h): rep.fail(case, 'step %s, expected the %s step %s' % (arr(got), kind, arr(h)))
            if abs(d_now - d2) > 1e-9 * d2: rep.fail(case, 'radius %r after proposing the step, expected %r' % (d_now, d2))
            if np.linalg.norm(got) > d_now * (1 + 1e-9): rep.fail(case, 'step of length %r outside the radius %r' % (np.linalg.norm(got), d_now))
            rho = float(rng.choice([-3., -1e-9, 0., .01, .049, .05, .06, .5, .89, .9, .91, 1., 5., np.nan])); before = st.delta
            st.updateRadius(rho); ln = np.linalg.norm(got2)
            want = max(before, 2.5 * ln) if rho > .9 else (before if rho >= .05 else before * .25)
            rep.count(('radius', rho))
            if abs(st.delta - want) > 1e-9 * want: rep.fail('%s rho=%r' % (case, rho), 'radius becomes %r, expected %r' % (st.delta, want))

def layouts(rng):
    """variables, list of free variables with (variable index, flat positions), residual builder and reference"""
    a, b, c, n = rng.uniform(.5, 1.5, (2, 3)), rng.uniform(.5, 1.5, 4), rng.uniform(.5, 1.5, 3), rng.uniform(.5, 1.5, [(), (1,), (1, 1), (1, 1, 1)][rng.randint(4)])
    n = np.array(n); vs = [Ch(a), Ch(b), Ch(c), Ch(n)]
    for v in vs:                               # what a variable may be holding
        k = rng.randint(10); w = np.asarray(v.x)
        if k == 0: v.x = rng.randint(1, 3, w.shape)
        elif k == 1: v.x = rng.randint(1, 3, w.shape).tolist()
        elif k == 2: v.x = w.tolist()
        elif k == 3: v.x = np.asfortranarray(w)
        elif k == 4: v.x = np.array(w, np.float32)
        elif k == 5: v.x = np.repeat(np.atleast_1d(w), 2, axis=-1)[..., ::2].reshape(w.shape)
        elif k == 6 and w.ndim: v.x = np.broadcast_to(w[:1], w.shape)      # read-only, overlapping
    def resid(v):
        return ch.concatenate([v[0].ravel() * v[0].ravel() - .3, v[1] * v[3].reshape(1) - 1., v[2] * 3. - v[1][:3], ch.exp(v[0][0]) - v[2], (v[3] - .7).reshape(1)])
    def ref(x):
        A, B, C, n = x
        A = A.reshape(2, 3); n = np.ravel(n)[0]
        return np.concatenate([A.ravel()**2 - .3, B * n - 1, C * 3 - B[:3], np.exp(A[0]) - C, [n - .7]])
    cand = []
    ar = [np.arange(v.size).reshape(v.shape) for v in vs]
    cand.append([lambda: (vs[0], 0, ar[0].ravel()), lambda: (vs[0][1], 0, ar[0][1].ravel()), lambda: (vs[0][:, 1:], 0, ar[0][:, 1:].ravel()), lambda: (vs[0][:, 1:][::-1, 0], 0, ar[0][:, 1:][::-1, 0].ravel()),
                 lambda: (vs[0].ravel()[[4, 1, 2]][1:] if False else vs[0][1][::-1][:2], 0, ar[0][1][::-1][:2].ravel()), lambda: (vs[0][0][1:][::-1], 0, ar[0][0][1:][::-1].ravel())])
    cand.append([lambda: (vs[1], 1, ar[1]), lambda: (vs[1][1:], 1, ar[1][1:]), lambda: (vs[1][[3, 0]], 1, ar[1][[3, 0]]), lambda: (vs[1][::2][1:], 1, ar[1][::2][1:]), lambda: (vs[1][::-1][1:][::2], 1, ar[1][::-1][1:][::2])])
    cand.append([lambda: (vs[2], 2, ar[2]), lambda: (vs[2][:1], 2, ar[2][:1])])
    cand.append([lambda: (vs[3], 3, ar[3].ravel())])
    use = [k for k in range(4) if rng.rand() < .65] or [0]
    rng.shuffle(use)
    free = []
    for k in use:
        free.append(cand[k][rng.randint(len(cand[k]))]())
    if rng.rand() < .3: # two selections of one variable
        free = [f for f in free if f[1] != 1] + [(vs[1][:1], 1, ar[1][:1]), (vs[1][2:], 1, ar[1][2:])]
    return vs, free, resid, ref

def c17(rep):
    rng = rep.rng(17)
    for t in range(N(rep, 25, 300)):
        if rep.time_left() < 0: break
        vs, free, resid, ref = layouts(rng)
        start = [np.array(v.r) for v in vs]; shapes = [np.shape(v.x) for v in vs]
        log = []; e = resid(vs); p = Probe(res=e, log=log, watch=list(vs))
        fv = [f[0] for f in free]
        desc = 'free: %s' % [(k, list(ix)) for _, k, ix in free]
        freepos = {}
        for _, k, ix in free: freepos.setdefault(k, set()).update(int(i) for i in ix)
        def check(where, x=None):
            rep.count((desc, where))
            for k, v in enumerate(vs):
                if np.shape(v.r) != np.shape(np.atleast_1d(start[k])): rep.fail(desc, '%s: variable %d changed its shape to %s' % (where, k, np.shape(v.r))); return
                fixed = [i for i in range(v.size) if i not in freepos.get(k, ())]
                if not np.array_equal(v.r.ravel()[fixed], start[k].ravel()[fixed]):
                    rep.fail(desc, '%s: entries of variable %d that are not free changed: %s -> %s' % (where, k, arr(start[k]), arr(v.r))); return
            if x is not None:
                pos = 0
                for f, k, ix in free:
                    seg = x[pos:pos + len(ix)]; pos += len(ix)
                    if not np.array_equal(vs[k].r.ravel()[ix], seg): rep.fail(desc, '%s: free entries %s of variable %d hold %s, the parameter vector %s' % (where, list(ix), k, arr(vs[k].r.ravel()[ix]), arr(seg))); return
        def wantJ():
            cur = [np.array(v.r) for v in vs]
            Js = [fd(ref, cur, k) for k in range(4)]
            return np.hstack([Js[k][:, ix] for _, k, ix in free])
        def on_step(o):
            x = np.array(o.x.r).ravel()
            check('at a reported step', x)
            if rng.rand() < .5 and hasattr(o, 'J'):
                J = dense(o.J); rep.count(None)
                if not close(J, wantJ(), 1e-5): rep.fail(desc, 'the Jacobian used by the optimizer is\n%s\nexpected\n%s' % (arr(J), arr(wantJ())))
        o = dict(maxiter=int(rng.choice([1, 3, 8])), disp=False)
        if rng.rand() < .5: o['delta_0'] = float(rng.choice([1e-2, .3, 50.]))
        if rng.rand() < .3: o['treat_as_dense'] = True
        try: ch.minimize(p, x0=fv, method='dogleg', callback=on_step, options=o)
        except Stop: raise
        except Exception as ex: rep.fail(desc, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:])); continue
        check('at the end')
        for l in log: # at every evaluation
            for k in range(4):
                fixed = [i for i in range(l[k].size) if i not in freepos.get(k, ())]
                if l[k].shape != start[k].shape or not np.array_equal(l[k].ravel()[fixed], start[k].ravel()[fixed]): rep.fail(desc, 'during an evaluation variable %d was %s' % (k, arr(l[k]))); break
        rep.count(None)
        if not close(np.asarray(p.r).ravel(), ref([np.array(v.r) for v in vs]), 1e-8): rep.fail(desc, 'the objective is stale after minimization')
        for f, k, ix in free:
            if not np.array_equal(f.r.ravel(), vs[k].r.ravel()[ix]): rep.fail(desc, 'free selection %s of variable %d shows %s, the variable holds %s' % (list(ix), k, arr(f.r), arr(vs[k].r.ravel()[ix])))
        # the first evaluation away from the start follows the Jacobian's columns: Gauss-Newton step in free entries
        if 'delta_0' not in o and len(log) > 1:
            pass
        # scipy path
        vs2 = vs; start = [np.array(v.r) for v in vs]
        seen = []
        def cb(x, *a): seen.append(np.array(x)); 
        meth = ['CG', 'BFGS', 'L-BFGS-B', 'SLSQP', 'Powell', 'Nelder-Mead'][rng.randint(6)]
        if any(isinstance(f, ch.Reshape) if hasattr(ch, 'Reshape') else False for f in fv): continue
        log[:] = []
        try: ch.minimize(p, x0=fv, method=meth, callback=cb if meth not in ('Powell', 'SLSQP') else None, options=dict(maxiter=3))
        except Exception as ex: rep.fail(desc, '%s raised %s: %s\n%s' % (meth, type(ex).__name__, ex, traceback.format_exc()[-900:])); continue
        check('after ' + meth)
        for l in log:
            for k in range(4):
                fixed = [i for i in range(l[k].size) if i not in freepos.get(k, ())]
                if not np.array_equal(l[k].ravel()[fixed], start[k].ravel()[fixed]): rep.fail(desc, '%s: during an evaluation variable %d was %s' % (meth, k, arr(l[k]))); break
    # rejected steps are undone for every free variable
    for t in range(N(rep, 10, 60)):
        w = rng.uniform(.5, 1.5, 5); x = Ch(np.array(w)); y = Ch(rng.uniform(.5, 1.5, 2)); y0 = np.array(y.r)
        sel = x[1:4]; q = x[0]
        e = ch.concatenate([ch.exp(sel * sel * 4.), y * 2. - 1., q * q - 3.])
        rec = []
        ch.minimize(e, x0=[sel, y], method='dogleg', callback=lambda o: rec.append((np.array(x.r), np.array(y.r))), options=dict(maxiter=4, delta_0=float(rng.choice([1., 100.])), disp=False))
        rep.count(('rejected', t))
        if x.r[0] != w[0] or x.r[4] != w[4]: rep.fail('rejected steps', 'entries that are not free changed: %s -> %s' % (arr(w), arr(x.r)))
        if not (np.array_equal(rec[-1][0], x.r) and np.array_equal(rec[-1][1], y.r)): rep.fail('rejected steps', 'the final variables are not those of the last reported step')

def c18(rep):
    rng = rep.rng(18)
    real = scipy.optimize.minimize
    class Res(object): pass
    for t in range(N(rep, 25, 300)):
        if rep.time_left() < 0: break
        style = rng.randint(4)
        x0, y0, z0 = rng.uniform(.5, 1.5, 3), rng.uniform(.5, 1.5, (2, 2)), np.array(rng.uniform(.5, 1.5))
        x, y, z = Ch(x0), Ch(y0), Ch(z0)
        sel = rng.rand() < .4
        fv = [x[::-1][:2] if sel else x, y, z]
        ixs = np.arange(3)[::-1][:2] if sel else np.arange(3)
        if rng.rand() < .5: fv = fv[:2]
        def setp(vec):
            vec = np.asarray(vec); X, Y, Z = np.array(x0, vec.dtype), np.array(y0), np.array(z0)
            k = len(ixs); X[ixs] = vec[:k]; Y = vec[k:k + 4].reshape(2, 2)
            if len(fv) == 3: Z = vec[k + 4]
            return X, Y, Z.ravel()[0]
        def jac_of(v):
            J = []
            for k in range(len(v)):
                c = np.array(v, complex); c[k] += 1e-30j # complex step: exact to rounding
                J.append(np.imag(R(*setp(c))) / 1e-30)
            return np.array(J).T
        if style == 0:
            obj = ch.sum(x * x * 3.) + ch.sum(ch.exp(y) * z); vecobj = False
            R = lambda X, Y, Z: np.array([np.sum(X * X * 3) + np.sum(np.exp(Y) * Z)])
        else:
            parts = [x * x - 1., y.ravel() * z, ch.concatenate([x[:1] * y.ravel()[:1], z.reshape(1) * 2.])]
            obj = ch.concatenate(parts) if style == 1 else (parts if style == 2 else dict(a=parts[0], b=parts[1], c=parts[2])); vecobj = True
            if style == 1 and rng.rand() < .5: obj = obj.reshape([(1, -1), (-1, 1), (1, 1, -1)][rng.randint(3)])
            R = lambda X, Y, Z: np.concatenate([X * X - 1, Y.ravel() * Z, [X[0] * Y[0, 0], Z * 2]])
        f = (lambda v: float(np.sum(R(*setp(v))**2))) if vecobj else (lambda v: float(R(*setp(v))[0]))
        method = ['trust-ncg', 'Newton-CG', 'BFGS', 'trust-krylov', 'trust-exact', 'L-BFGS-B', 'CG', 'SLSQP'][rng.randint(8)]
        case = 'method %s, %s objective style %d, selection %s, %d free variables' % (method, 'vector' if vecobj else 'scalar', style, sel, len(fv))
        n = sum(int(v.size) for v in fv)
        calls = []
        def fake(fun=None, x0=None, args=(), method=None, jac=None, hess=None, hessp=None, **kw):
            if np.shape(x0) != (n,): rep.fail(case, 'starting vector has shape %s' % (np.shape(x0),)); raise Stop()
            start = np.concatenate([np.ravel(v.r) for v in fv])
            if not np.array_equal(start, x0): rep.fail(case, 'the starting vector is not the free variables')
            pool = [np.array(x0)] + [np.asarray(x0) + rng.randn(n) * .3 for _ in range(3)]
            pool.append(pool[1].copy()); pool[-1][rng.randint(n)] += .25
            pool += [np.round(pool[1], d) for d in rng.randint(3, 13, 2)] + [np.array(np.array(pool[2], np.float32), float), pool[1] * (1 + 1e-10)]
            pool.append(pool[2] + rng.randn(n) * 10.**rng.uniform(-9, -4)) # a point very near another one
            pool += [pool[1][rng.permutation(n)], np.array(x0)[::-1].copy(), pool[1][::-1].copy(), -pool[1], pool[1] * np.where(rng.rand(n) < .5, -1, 1)] # the same numbers in another order
            pool.append(pool[2] + rng.randn(n) * 10.**rng.uniform(-9, -4))
            inplace, buf = rng.rand() < .5, np.empty(n)     # some solvers update one vector in place (Newton-CG: xk += update)
            for q in range(N(rep, 24, 40)):
                v = np.array(pool[rng.randint(len(pool))])
                if inplace: buf[...] = v; v = buf
                what = rng.randint(5)
                keep = v.copy()
                if what == 4 and rng.rand() < .2:
                    v[rng.randint(n)] = np.nan; got = fun(v, *args); calls.append(('f at NaN',)); rep.count((case, t, q))
                    if not np.isnan(got): rep.fail(case, 'after %s: objective at %s is %s, expected nan' % (calls[-6:], arr(v), got))
                    continue
                if what in (0, 4) or jac is None:
                    got = fun(v, *args); calls.append(('f',)); rep.count((case, t, q))
                    if np.ndim(got) != 0 or not close([float(got)], [f(v)], 1e-12): rep.fail(case, 'after %s: objective at %s is %s, expected %s' % (calls[-6:], arr(v), got, f(v)))
                elif what == 1:
                    got = np.asarray(jac(v, *args)); calls.append(('g',)); rep.count((case, t, q))
                    J = jac_of(v); want = 2 * J.T.dot(R(*setp(v))) if vecobj else J.ravel()
                    if got.shape != (n,) or not close(got, want, 1e-11): rep.fail(case, 'after %s: gradient at %s is %s, expected %s' % (calls[-6:], arr(v), arr(got), arr(want)))
                elif what == 2 and hessp is not None:
                    pvec = rng.randn(n)
                    J = jac_of(v); want = 2 * J.T.dot(J.dot(pvec))
                    got = np.asarray(hessp(v, pvec, *args)); calls.append(('Hp',)); rep.count((case, t, q))
                    if got.shape != (n,) or not close(got, want, 1e-11): rep.fail(case, 'after %s: Hessian product at %s is %s, expected %s' % (calls[-6:], arr(v), arr(got), arr(want)))
                elif what == 3 and hess is not None:
                    J = jac_of(v); want = 2 * J.T.dot(J)
                    got = dense(hess(v, *args)); calls.append(('H',)); rep.count((case, t, q))
                    if not close(got, want, 1e-11): rep.fail(case, 'after %s: Hessian at %s is\n%s\nexpected\n%s' % (calls[-6:], arr(v), arr(got), arr(want)))
                if not np.array_equal(v, keep): rep.fail(case, "the solver's vector was altered")
            res = Res(); res.x = np.array(pool[rng.randint(len(pool))]) if rng.rand() < .7 else np.asarray(x0) + rng.randn(n); res.fun = f(res.x); res.success = True
            fake.x = res.x.copy()
            return res
        scipy.optimize.minimize = fake
        try:
            out = ch.minimize(obj, x0=fv, method=method)
            end = np.concatenate([np.ravel(v.r) for v in fv])
            rep.count((case, 'end'))
            if not np.array_equal(end, fake.x): rep.fail(case, 'on return the free variables hold %s, the solver returned %s' % (arr(end), arr(fake.x)))
            X, Y, Z = setp(fake.x)
            if not (np.array_equal(x.r, X) and np.array_equal(y.r, Y) and np.array_equal(z.r, np.atleast_1d(Z))): rep.fail(case, 'variables on return: %s, %s, %s' % (x.r, y.r, z.r))
        except Stop: raise
        except Exception as ex: rep.fail(case, 'raised %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-900:]))
        finally: scipy.optimize.minimize = real
        # for real
        if t % 4 == 0:
            x.x, y.x, z.x = np.array(x0), np.array(y0), np.array(z0)
            if method == 'trust-exact': continue
            try: ch.minimize(obj, x0=fv, method=method, options=dict(maxiter=5))
            except Exception as ex:
                if vecobj or method not in ('trust-ncg', 'trust-krylov', 'trust-exact'): rep.fail(case, '%s raised %s: %s\n%s' % (method, type(ex).__name__, ex, traceback.format_exc()[-900:]))
                continue
            rep.count((case, 'real'))
            v = np.concatenate([np.ravel(q.r) for q in fv]); v0 = np.concatenate([x0[ixs], y0.ravel()] + ([z0.ravel()] if len(fv) == 3 else []))
            if f(v) > f(v0) * (1 + 1e-9): rep.fail(case, '%s made the objective larger' % method)
