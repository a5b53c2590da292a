"""C05-C09, C13, C14, C19, C20: properties of expression graphs, against an independent numpy reference."""
from hlib import *
from graphs import *
import gc, pickle
from chumpy import depends_on

def N(rep, q, t): return q if rep.tier == 'quick' else t

def cmpJ(rep, case, J, want, must=None, tol=5e-6):
    if must is not None and (J is not None) != must:
        rep.fail(case, 'derivative is %s, but there is %s differentiable path\nexpected\n%s' % ('reported' if J is not None else 'absent', 'a' if must else 'no', arr(want))); return
    try: D = dense(J, want.shape[0], want.shape[1])
    except Exception as e: rep.fail(case, 'unreadable derivative: %s' % e); return
    if not close(D, want, tol):
        rep.fail(case, 'derivative differs\nreported:\n%s\nexpected:\n%s' % (arr(D), arr(want)))

def rand_sel(rng, v):
    """A (nested) selection of a variable and the columns it stands for."""
    cols = np.arange(v.size).reshape(v.shape)
    s = v
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(4)
        if k == 0:
            ix = rng.permutation(cols.size)[:rng.randint(1, cols.size + 1)]
            s = s.ravel()[ix]; cols = cols.ravel()[ix]
        elif k == 1:
            s = s[::-1]; cols = cols[::-1]
        elif k == 2 and cols.ndim > 1:
            s = s.T; cols = cols.T
        else:
            n = rng.randint(1, cols.shape[0] + 1)
            s = s[:n]; cols = cols[:n]
    if s is v: s = v[...]
    return s, cols.ravel()

def c05(rep):
    rng = rep.rng(5)
    for t in range(N(rep, 60, 500)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 9))
        if not ok_values(g): continue
        chs = g.build(); root = len(g.n) - 1
        if g.n[root]['op'] == 'leaf': continue
        if not close(chs[root].r, g.vals()[root], 1e-9): rep.fail(g.text(), 'value differs'); continue
        for tgt in range(len(g.n)):
            if tgt == root: continue
            if g.n[tgt]['op'] in ('idx', 'resh', 'T', 'tile'): continue
            fresh_chs = g.build() if rng.rand() < .5 else chs
            case = 'graph %s root %d wrt %d' % (g.text(), root, tgt)
            want = g.jac(root, tgt)
            try: J = fresh_chs[root].dr_wrt(fresh_chs[tgt])
            except Exception as e: rep.fail(case, 'raised %s %s' % (type(e).__name__, traceback.format_exc()[-600:])); continue
            rep.count((g.text(), tgt)); cmpJ(rep, case, J, want, g.reaches(root, tgt))
        for tgt in leaves(g):
            c2 = g.build()
            if not isinstance(c2[tgt].x, np.ndarray) or tgt == root: continue
            s, cols = rand_sel(rng, c2[tgt])
            case = 'graph %s root %d wrt selection %s of %d' % (g.text(), root, cols, tgt)
            want = g.jac(root, tgt)[:, cols]
            try: J = c2[root].dr_wrt(s)
            except Exception as e: rep.fail(case, 'raised %s %s' % (type(e).__name__, traceback.format_exc()[-600:])); continue
            rep.count((g.text(), 'sel', tgt)); cmpJ(rep, case, J, want, g.reaches(root, tgt))
    # many inputs, sharing
    for t in range(N(rep, 15, 100)):
        x = Ch(rng.uniform(.5, 1.5, 3)); y = Ch(rng.uniform(.5, 1.5, 3))
        kids = [x, y, x * 1., y + x]
        pick = [rng.randint(4) for _ in range(rng.randint(2, 7))]
        e = ch.concatenate([kids[k] for k in pick])
        W = rng.randn(2, 3 * len(pick))
        f = ch.MatVecMult(W, e * e)
        bx = [np.eye(3), np.zeros((3, 3)), np.eye(3), np.eye(3)]
        by = [np.zeros((3, 3)), np.eye(3), np.zeros((3, 3)), np.eye(3)]
        for v, b in ((x, bx), (y, by)):
            want = (W * (2 * e.r)).dot(np.vstack([b[k] for k in pick]))
            rep.count(('cat', tuple(pick))); cmpJ(rep, 'concatenation of %s' % pick, f.dr_wrt(v), want)
    # derivatives that happen to be zero
    for t in range(N(rep, 60, 400)):
        x = Ch(rng.uniform(.5, 1.5, 3)); ms = [rng.randint(-3, 4, (2, 3)) * (rng.rand() < .6) for _ in range(3)]
        e = Lin(a=x, m=ms[0].astype(float)); D = ms[0].astype(float); v = D.dot(x.r)
        for m in ms[1:]:
            k = Lin(a=x, m=m.astype(float)); kv = m.dot(x.r)
            j = rng.randint(3); a, b = (e, k) if rng.rand() < .5 else (k, e); s = 1. if a is e else -1.
            e = a + b if j == 0 else a - b if j == 1 else a * b
            D, v = (D + m, v + kv) if j == 0 else (s * (D - m), s * (v - kv)) if j == 1 else (D * kv[:, None] + m * v[:, None], v * kv)
        rep.count(('zero', t)); cmpJ(rep, 'combination of multiplications by %s' % [m.tolist() for m in ms], e.dr_wrt(x), D)
    # the variable itself, selections with a number
    x = Ch(3.); e = x + x.reshape(1)
    rep.count('1x1'); cmpJ(rep, 'x + x.reshape(1)', e.dr_wrt(x), np.array([[2.]]))
    x = Ch([1., 2., 3.]); rep.count('self'); cmpJ(rep, 'x wrt x', x.dr_wrt(x), np.eye(3))
    x = Ch([1., 2., 3.]); J = x.dr_wrt(x[1:]); rep.count('self, selection')
    if J is None: rep.fail('x wrt x[1:]', '', known='a variable reports no derivative with respect to a selection of itself (x.dr_wrt(x[1:]))')
    else: cmpJ(rep, 'x wrt x[1:]', J, np.eye(3)[:, 1:])
    x = Ch(2.); c = x * 1; e = c + c; rep.count('shared'); cmpJ(rep, 'c+c', e.dr_wrt(x), np.array([[2.]]))

def c06(rep):
    rng = rep.rng(6)
    for t in range(N(rep, 60, 500)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 9))
        if not ok_values(g): continue
        root = len(g.n) - 1
        if g.n[root]['op'] == 'leaf': continue
        targets = [(i, None) for i in range(root) if g.n[i]['op'] not in ('idx', 'resh', 'T', 'tile')]
        targets += [(i, 'sel') for i in leaves(g) if np.ndim(g.n[i]['val'])]
        for tgt, kind in targets:
            want = g.jac(root, tgt)
            m = want.shape[0]
            for mode in ('reverse', 'lop', 'lmult', 'lop.sparse', 'lmult.sparse'):
                if rng.rand() < .4: continue
                c2 = g.build()
                w, W = c2[tgt], want
                if kind:
                    w, cols = rand_sel(rng, c2[tgt]); W = want[:, cols]
                L = rng.randint(-3, 4, (rng.randint(1, 4), m)).astype(float)
                if rng.rand() < .3: c2[root].r
                if rng.rand() < .2: c2[root].dr_wrt(c2[tgt])
                case = '%s: graph %s root %d wrt %d %s' % (mode, g.text(), root, tgt, kind or '')
                try:
                    if mode == 'reverse': J = c2[root].dr_wrt(w, reverse_mode=True)
                    elif mode == 'lop': J, W = c2[root].lop(w, L), L.dot(W)
                    elif mode == 'lmult': J, W = c2[root].lmult_wrt(L, w), L.dot(W)
                    elif mode == 'lop.sparse': J, W = c2[root].lop(w, sp.csc_matrix(L)), L.dot(W)
                    else: J, W = c2[root].lmult_wrt(sp.csc_matrix(L), w), L.dot(W)
                except Exception as e:
                    rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-700:])); continue
                rep.count((g.text(), tgt, mode, kind)); cmpJ(rep, case, J, W, g.reaches(root, tgt))
    # several inputs, one shared
    for t in range(N(rep, 10, 60)):
        x = Ch(rng.uniform(.5, 1.5, 3)); k = [x * 1., ch.sin(x), x]
        pick = [rng.randint(3) for _ in range(4)]
        mk = lambda: ch.concatenate([k[i] for i in pick])
        ref = np.vstack([[np.eye(3), np.diag(np.cos(x.r)), np.eye(3)][i] for i in pick])
        L = rng.randn(2, 12)
        rep.count(('cat', tuple(pick)))
        cmpJ(rep, 'lop of concatenation %s' % pick, mk().lop(x, L), L.dot(ref))
        cmpJ(rep, 'lmult of concatenation %s' % pick, mk().lmult_wrt(L, x), L.dot(ref))
        cmpJ(rep, 'reverse of concatenation %s' % pick, mk().dr_wrt(x, reverse_mode=True), ref)
    x = Ch(rng.randn(2, 2)); e = ch.floor(x)
    rep.count('none')
    for J in (e.lop(x, np.eye(4)), e.lmult_wrt(np.eye(4), x), e.dr_wrt(x, reverse_mode=True), e.lmult_wrt(None, x)):
        if J is not None and np.any(dense(J)): rep.fail('floor', 'derivative reported')

def _hist(rep, salt, what, steps, tests):
    rng = rep.rng(salt)
    for t in range(tests):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 5), nops=rng.randint(3, 10), avoid=('floor',) if what == 'dr' else ())
        if not ok_values(g): continue
        live = g.build()
        log = []
        kept = []
        if len(leaves(g)) == len(g.n): continue
        for st in range(steps):
            for _ in range(rng.randint(1, 4)):
                try: d = mutate(rng, g, live)
                except Exception as e:
                    rep.fail('graph %s, history %s' % (g.text(), log), 'assignment raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-700:])); d = None
                if d: log.append(d)
            vals = g.vals()
            ask = [i for i in range(len(g.n)) if rng.rand() < .4]
            rng.shuffle(ask)
            for i in ask:
                case = 'graph %s, history %s, node %d' % (g.text(), log, i)
                try:
                    if what == 'r' or rng.rand() < .3:
                        r = live[i].r if rng.rand() < .8 else live[i]()
                        rep.count((t, st, i)); log.append('r%d' % i)
                        if not close(r, vals[i], 1e-9): rep.fail(case, 'stale value\ngot %s\nwant %s' % (arr(r), arr(vals[i])))
                        if rng.rand() < .5 and what == 'dr' or rng.rand() < .1:
                            kept.append((case + ' (value)', r, np.array(r)))
                    if (what == 'dr' or rng.rand() < .2) and g.n[i]['op'] != 'leaf':
                        tg = [k for k in range(i) if g.n[k]['op'] not in ('idx', 'resh', 'T', 'tile')]
                        if not tg: continue
                        k = tg[rng.randint(len(tg))]
                        want = g.jac(i, k)
                        if rng.rand() < .2:
                            Jr = live[i].dr_wrt(live[k], reverse_mode=True); log.append('rev%d/%d' % (i, k))
                            if what == 'dr': cmpJ(rep, case + ' wrt %d in reverse mode' % k, Jr, want)
                        J = live[i].dr_wrt(live[k]); log.append('d%d/%d' % (i, k))
                        if what == 'dr':
                            rep.count((t, st, i, k)); cmpJ(rep, case + ' wrt %d' % k, J, want)
                            J2 = live[i].dr_wrt(live[k])
                            cmpJ(rep, case + ' wrt %d asked twice' % k, J2, want)
                            if J is not None: kept.append((case + ' wrt %d' % k, J, dense(J).copy()))
                except Exception as e:
                    rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
            for c, J, D in kept:
                cur = dense(J) if sp.issparse(J) or J.ndim == 2 and D.ndim == 2 else np.asarray(J)
                if not np.array_equal(cur, D) and not (np.isnan(cur) == np.isnan(D)).all():
                    rep.fail(c, 'a result handed out earlier was altered')
                elif cur.shape != D.shape or not np.array_equal(cur, D):
                    rep.fail(c, 'a result handed out earlier was altered')
            kept = kept[-10:]

def same_object_again(rep, jac):
    """an array or list is changed in place and then assigned again: an assignment like any other"""
    rng = rep.rng(971)
    for t in range(N(rep, 12, 60)):
        a = rng.rand(3) + .5; x = Ch(a); x.x = a; e = x * 2. + ch.sin(x) if t % 2 else ch.exp(x) * x; top = e + 1. if t % 3 else e
        for s in range(3):
            v = x.r.copy(); d = 2. + np.cos(v) if t % 2 else np.exp(v) * (1 + v); w = (v * 2. + np.sin(v) if t % 2 else np.exp(v) * v) + (1. if t % 3 else 0.)
            rep.count(('in place', t, s))
            if jac: cmpJ(rep, 'an array changed in place and assigned again', top.dr_wrt(x), np.diag(d))
            elif not close(top.r, w): rep.fail('an array changed in place and assigned again', 'stale: %s vs %s' % (top.r, w))
            a[rng.randint(3)] += rng.rand() + .1
            if s % 2: x.x = a
            else: x.set(x=a)
        # an argument that is a list
        z = Ch(rng.rand(2, 2, 2)); axes = [1, 0, 2]; q = ch.transpose(z, axes); q.axes = axes; top = q * 2. if t % 2 else q
        for s in range(4):
            k = 2. if t % 2 else 1.; rep.count(('list in place', t, s))
            if jac: cmpJ(rep, 'a list changed in place and assigned again', top.dr_wrt(z), k * np.eye(8)[np.arange(8).reshape(2, 2, 2).transpose(axes).ravel()])
            elif not close(top.r, k * z.r.transpose(axes)): rep.fail('a list changed in place and assigned again', 'stale')
            axes[:] = list(rng.permutation(3))
            if s % 2: q.axes = axes
            else: q.set(axes=axes)

def c07(rep):
    failures(rep, 'r'); rep.section = ''
    same_object_again(rep, False)
    _hist(rep, 7, 'r', 5, N(rep, 90, 700))
    rng = rep.rng(77)
    # another expression sharing nodes comes and goes
    for t in range(N(rep, 20, 100)):
        x, y = Ch(rng.rand(3)), Ch(rng.rand(3))
        a = x * y; b = a + x
        b.r
        tmp = ch.sin(a); tmp.r
        if rng.rand() < .5: del tmp; gc.collect()
        c = a - y
        x.x = rng.rand(3)
        w = x.r * y.r; rep.count(('share', t))
        if not close(b.r, w + x.r) or not close(c.r, w - y.r) or not close(a.r, w): rep.fail('shared nodes', 'stale')
        y.set(x=rng.rand(3)); w = x.r * y.r
        if not close(b(), w + x.r) or not close(c.r, w - y.r): rep.fail('shared nodes', 'stale')
    # several attributes at once, repeatedly, with and without extra attributes
    for t in range(N(rep, 30, 200)):
        x, y, z = [Ch(rng.rand(2)) for _ in range(3)]
        e = ch.add(a=x, b=y); f = e * z; h = f + e
        A, B, C = x, y, z
        log = []
        for s in range(8):
            k = rng.randint(6)
            if k == 0: A, B = Ch(rng.rand(2)), Ch(rng.rand(2)); e.set(a=A, b=B); log.append('set a b')
            elif k == 1: A = Ch(rng.rand(2)); e.set(a=A, label='foo'); log.append('set a label')
            elif k == 2: B = Ch(rng.rand(2)); e.set(label='q%d' % s, b=B); log.append('set label b')
            elif k == 3: C = Ch(rng.rand(2)); f.set(b=C, label='z'); log.append('f.set')
            elif k == 4: A.x = rng.rand(2); log.append('a.x')
            elif k == 5: A.set(x=rng.rand(2), label='lab'); log.append('a.set')
            if rng.rand() < .3: A.label = 'n%d' % s
            w = A.r + B.r; rep.count(('set', t, s))
            if rng.rand() < .7 and not close(h.r, w * C.r + w): rep.fail('set history %s' % log, 'stale: %s vs %s' % (h.r, w * C.r + w))
            if rng.rand() < .5 and not close(e.r, w): rep.fail('set history %s' % log, 'stale')
        w = A.r + B.r
        if not close(h.r, w * C.r + w): rep.fail('set history %s' % log, 'stale: %s vs %s' % (h.r, w * C.r + w))
    # function-style expressions, arguments that are not differentiated included
    for t in range(N(rep, 20, 120)):
        vs = [Ch(rng.rand(3)) for _ in range(4)]; cur = dict(a=0, b=1)
        e = Ch(lambda a, b: a * 2. + ch.floor(b * 10.)); e.set(a=vs[0], b=vs[1]); top = ch.sin(e); hist = []
        for s in range(6):
            k = rng.randint(4)
            if k == 0: i = rng.randint(4); vs[i].x = rng.rand(3); hist.append('x%d' % i)
            elif k == 1: n = 'ab'[rng.randint(2)]; cur[n] = rng.randint(4); setattr(e, n, vs[cur[n]]); hist.append('%s:=%d' % (n, cur[n]))
            elif k == 2: cur = dict(a=rng.randint(4), b=rng.randint(4)); e.set(**{n: vs[cur[n]] for n in cur}); hist.append('set %s' % cur)
            else: i = rng.randint(4); vs[i][rng.randint(3)] = rng.rand(); hist.append('x%d[]' % i)
            w = vs[cur['a']].r * 2. + np.floor(vs[cur['b']].r * 10.); rep.count(('lambda', t, s))
            if rng.rand() < .5 and not close(e.r, w) or rng.rand() < .5 and not close(top.r, np.sin(w)): rep.fail('function-style expression, history %s' % hist, 'stale: %s, expected %s' % (e.r, w))
    # attributes set again after any number of other settings
    for P in (1, 2, 10, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000, 16384, 65536):
        if rep.tier == 'quick' and P > 20000: continue
        x, y, z = Ch(1.), Ch(2.), Ch(0.); e = ch.add(a=x, b=y); f = e * 3.; f.r; rep.count(('set again', P)); xs = [Ch(k + .5) for k in range(3)]
        for k in range(3):
            e.set(a=xs[k], **{'label%d' % q: k for q in range(12)})
            if not close(f.r, [3. * (k + 2.5)]): rep.fail('set() after %d other calls of set()' % (P - 1), 'stale: %s, expected %s' % (f.r, 3. * (k + 2.5))); break
            for _ in range(P - 1): z.set(label='l')
    # keyword call
    x = Ch(1.); y = Ch(2.); e = ch.multiply(a=x, b=y); f = e + 1.
    rep.count('call')
    if not close(f.r, [3.]) or not close(e(a=5.), [10.]) or not close(f.r, [11.]) or not close(e(b=7., a=2.), [14.]) or not close(f.r, [15.]): rep.fail('call with keywords', 'stale %s' % f.r)

class Fragile(Ch):
    """an operation that fails on request, in its callback, its value or its derivative"""
    dterms = 'a', 'b'; terms = 'fail'
    def boom(self, where):
        if self.__dict__.get('arm') == where: raise ValueError('requested')
    def on_changed(self, which): self.boom('changed'); self.__dict__['sc'] = 3. if 'a' in which or 'b' in which or 'fail' in which else self.__dict__.get('sc')
    @depends_on('a')
    def pa(self): self.boom('prop'); return self.a.r ** 2
    def compute_r(self): self.boom('r'); return self.pa * self.sc + self.b.r
    def compute_dr_wrt(self, wrt):
        self.boom('dr'); J = None
        if wrt is self.a: J = sp.diags(2 * 3. * self.a.r)
        if wrt is self.b: J = sp.eye(2) if J is None else J + sp.eye(2)
        return J

def failures(rep, what):
    """evaluations that fail leave nothing behind"""
    rng = rep.rng(707)
    rep.section = 'failing evaluations'
    for t in range(N(rep, 60, 400)):
        x, y = Ch(rng.rand(2)), Ch(rng.rand(2))
        P = x * y; e = Fragile(a=[x, P][rng.randint(2)], b=[y, x, P][rng.randint(3)], fail=0)
        top = e + x if rng.rand() < .5 else ch.sin(e); hist = []
        other = e * y if rng.rand() < .4 else None
        def ref():
            A, B = e.a.r, e.b.r; v = A ** 2 * 3. + B
            return v, (v + x.r if isinstance(top, ch.add) else np.sin(v))
        for s in range(6):
            k = rng.randint(6)
            arm = [None, 'r', 'dr', 'changed', 'prop'][rng.randint(5)]; e.__dict__['arm'] = arm; hist.append('fail in %s' % arm)
            if k == 0: x.x = rng.rand(2); hist.append('x')
            elif k == 1: y[rng.randint(2)] = rng.rand(); hist.append('y')
            elif k == 2: e.a = [x, P, y][rng.randint(3)]; hist.append('a')
            elif k == 3: e.set(b=[x, P, y][rng.randint(3)], fail=s); hist.append('set')
            for _ in range(rng.randint(1, 3)):
                try:
                    if rng.rand() < .5: hist.append('r'); top.r
                    elif other is not None and rng.rand() < .4: hist.append('other'); other.dr_wrt(x); other.r
                    else: hist.append('dr'); top.dr_wrt([x, y][rng.randint(2)])
                except ValueError: hist.append('failed')
            if rng.rand() < .5:
                e.__dict__['arm'] = None; rep.count((t, s)); case = 'history %s' % hist
                try:
                    v, w = ref()
                    if what == 'r':
                        if not close(e.r, v) or not close(top.r, w): rep.fail(case, 'wrong value after a failed evaluation: %s vs %s' % (top.r, w)); return
                    else:
                        for q in (x, y):
                            J = top.dr_wrt(q); q0 = q.r.copy()
                            A = np.asarray(e.a.r)
                            def full(z):
                                X, Y = (z, y.r) if q is x else (x.r, z)
                                val = {id(x): X, id(y): Y, id(P): X * Y}
                                vv = val[id(e.a)] ** 2 * 3. + val[id(e.b)]
                                return vv + X if isinstance(top, ch.add) else np.sin(vv)
                            want = np.column_stack([(full(q0 + h) - full(q0 - h)) / 2e-5 for h in 1e-5 * np.eye(2)])
                            got = np.zeros((2, 2)) if J is None else dense(J)
                            if not close(got, want, 1e-5): rep.fail(case, 'wrong derivative after a failed evaluation: %s vs %s' % (got, want)); return
                except Exception: rep.fail(case, 'raised %s' % traceback.format_exc()[-700:]); return

def c08(rep):
    failures(rep, 'dr')
    same_object_again(rep, True)
    _hist(rep, 8, 'dr', 4, N(rep, 60, 500))
    rng = rep.rng(88)
    # a variable used directly and below another operand, both modes, any order
    fs = [(ch.sin, np.cos, np.sin), (ch.exp, np.exp, np.exp), (lambda q: q * q, lambda q: 2 * q, lambda q: q * q), (lambda q: q + 1., lambda q: 1 + 0 * q, lambda q: q + 1.)]
    for t in range(N(rep, 30, 200)):
        x = Ch(rng.rand(3) + .5); f, fp, f0 = fs[rng.randint(4)]; k = rng.randint(5); g = f(x); hist = []
        e = [lambda: x * g, lambda: g * x, lambda: x + g, lambda: x - g, lambda: x / (g + 2.)][k]()
        top = e if rng.rand() < .5 else e * 2.; sc = 1. if top is e else 2.
        for s in range(6):
            a = x.r; F, Fp = f0(a), fp(a); d = [F + a * Fp, F + a * Fp, 1 + Fp, 1 - Fp, 1 / (F + 2.) - a * Fp / (F + 2.)**2][k] * sc
            rev = rng.rand() < .5; hist.append('rev' if rev else 'fwd'); rep.count(('both', t, s))
            J = top.dr_wrt(x, reverse_mode=True) if rev else top.dr_wrt(x); cmpJ(rep, 'a variable used twice, history %s' % hist, J, np.diag(d))
            if rng.rand() < .3: other = e * g if rng.rand() < .5 else g + e; other.dr_wrt(x); hist.append('other')
            if rng.rand() < .3: x.x = rng.rand(3) + .5; hist.append('x')
    # shared structure of same-shape operations, interleaved
    for t in range(N(rep, 15, 100)):
        xs = [Ch(rng.rand(2, 2) + .5) for _ in range(3)]
        es = [xs[0] * xs[1], xs[0] + xs[1], xs[0] - xs[2], xs[0] / xs[1], xs[1] * xs[1], ch.maximum(xs[0], xs[2] + 5.), xs[0] * Ch([2., 3.]), Ch([2., 3.]) + xs[1], xs[2] ** 2.]
        kept = []
        for s in range(12):
            e = es[rng.randint(len(es))]; v = xs[rng.randint(3)]
            J = e.dr_wrt(v)
            if J is not None: kept.append((J, dense(J).copy()))
            if rng.rand() < .3: v.x = rng.rand(2, 2) + .5
        for J, D in kept:
            rep.count(None)
            if not np.array_equal(dense(J), D): rep.fail('interleaved same-shape operations', 'a Jacobian handed out earlier was altered')

def c09(rep):
    failures(rep, 'r'); rep.section = ''
    rng = rep.rng(9)
    class Rec(Ch):
        dterms = 'a', 'b', 'c'
        terms = 't', 'u'
        def on_changed(self, which):
            self.__dict__.setdefault('log', []).append(set(which))
        @depends_on('a', 'b')
        def pab(self):
            self.__dict__['nab'] = self.__dict__.get('nab', 0) + 1
            return self.a.r + self.b.r
        @depends_on('a', 'b')
        def pab2(self):
            self.__dict__['nab2'] = self.__dict__.get('nab2', 0) + 1
            return self.a.r * 0. + self.b.r
        @depends_on(('c', 't'))
        def pct(self):
            self.__dict__['nct'] = self.__dict__.get('nct', 0) + 1
            return self.c.r * self.t
        @depends_on('u')
        def pu(self):
            self.__dict__['nu'] = self.__dict__.get('nu', 0) + 1
            return self.u * 2
        def compute_r(self): return self.pab + self.pct + self.pu + 0. * self.pab2
        def compute_dr_wrt(self, wrt):
            out = 0
            if wrt is self.a: out = out + np.eye(2)
            if wrt is self.b: out = out + np.eye(2)
            if wrt is self.c: out = out + np.eye(2) * self.t
            return out if not np.isscalar(out) else None
    props = {'pab': ({'a', 'b'}, 'nab'), 'pab2': ({'a', 'b'}, 'nab2'), 'pct': ({'c', 't'}, 'nct'), 'pu': ({'u'}, 'nu')}
    for t in range(N(rep, 60, 500)):
        if rep.time_left() < 0: break
        x, y, z = [Ch(rng.rand(2)) for _ in range(3)]
        pool = [x, y, z, x * y, ch.sin(z), x + 1.]
        deep = pool[3] * z + pool[5]; pool.append(deep)
        deps = [{0}, {1}, {2}, {0, 1}, {2}, {0}, {0, 1, 2}]
        cur = {n: rng.randint(7) for n in 'abc'}
        T, U = 2., 3.
        e = Rec(a=pool[cur['a']], b=pool[cur['b']], c=pool[cur['c']], t=T, u=U)
        top = e * 2.
        dirty = {'a', 'b', 'c', 't', 'u'}
        stale = {p: True for p in props}
        e.__dict__['log'] = []
        hist = []
        for s in range(8):
            k = rng.randint(9)
            ch_names = set()
            if k < 3:
                v = [x, y, z][k]
                if rng.rand() < .5: v.x = rng.rand(2)
                else: v[rng.randint(2)] = rng.rand()
                ch_names = {n for n in 'abc' if k in deps[cur[n]]}
                hist.append('leaf%d' % k)
            elif k == 3:
                n = 'abc'[rng.randint(3)]; cur[n] = rng.randint(7); setattr(e, n, pool[cur[n]]); ch_names = {n}; hist.append('%s:=%d' % (n, cur[n]))
            elif k == 4: T = rng.rand(); e.t = T; ch_names = {'t'}; hist.append('t')
            elif k == 5: U = rng.rand(); e.u = U; ch_names = {'u'}; hist.append('u')
            elif k == 6:
                n = 'abc'[rng.randint(3)]; cur[n] = rng.randint(7); T = rng.rand()
                e.set(**{n: pool[cur[n]], 't': T}); ch_names = {n, 't'}; hist.append('set %s:=%d,t' % (n, cur[n]))
            dirty |= ch_names
            for p in props:
                if props[p][0] & ch_names: stale[p] = True
            what = rng.randint(5)
            case = 'history %s' % hist
            vals = lambda n: pool[cur[n]].r
            before = {p: e.__dict__.get(props[p][1], 0) for p in props}
            e.__dict__['log'] = []
            rep.count((t, s))
            if what == 0:
                p = list(props)[rng.randint(len(props))]
                v = getattr(e, p); hist.append(p)
                want = {'pab': lambda: vals('a') + vals('b'), 'pab2': lambda: vals('b') + 0. * vals('a'), 'pct': lambda: vals('c') * T, 'pu': lambda: U * 2}[p]()
                if not close(v, want): rep.fail(case, 'dependent property %s is stale: %s vs %s' % (p, v, want))
                n = e.__dict__.get(props[p][1], 0) - before[p]
                if n != (1 if stale[p] else 0): rep.fail(case, 'dependent property %s computed %d times, expected %d' % (p, n, stale[p]))
                stale[p] = False
                if e.__dict__['log']: rep.fail(case, 'callback ran outside an evaluation')
            elif what < 4:
                was_clean = not dirty
                try:
                    if what == 1:
                        r = e.r; hist.append('r')
                        want = vals('a') + vals('b') + vals('c') * T + U * 2
                        if not close(r, want): rep.fail(case, 'stale value')
                    elif what == 2:
                        r = top.r; hist.append('top.r')
                        want = 2 * (vals('a') + vals('b') + vals('c') * T + U * 2)
                        if not close(r, want): rep.fail(case, 'stale value')
                    else:
                        w = rng.randint(7); J = e.dr_wrt(pool[w]); hist.append('dr')
                except Exception as ex:
                    rep.fail(case, 'raised %s' % traceback.format_exc()[-600:])
                log = e.__dict__['log']
                if dirty and (len(log) != 1 or log[0] != dirty): rep.fail(case, 'callback calls %s, expected one with %s' % (log, sorted(dirty)))
                if not dirty and log: rep.fail(case, 'callback ran without a change: %s' % log)
                dirty = set()
                if what != 3:
                    for p in props:
                        n = e.__dict__.get(props[p][1], 0) - before[p]
                        if stale[p] and n != 1 or not stale[p] and n != 0: rep.fail(case, 'dependent property %s computed %d times in an evaluation (stale: %s)' % (p, n, stale[p]))
                        stale[p] = False
    # dependent property with an output buffer
    class Buf(Ch):
        dterms = 'a',
        @depends_on('a')
        def p(self, out=None):
            self.__dict__.setdefault('outs', []).append(out)
            return self.a.r * 2
        def compute_r(self): return self.p
    x = Ch([1., 2.]); e = Buf(a=x); e.r; x.x = np.array([3., 4.]); rep.count('buf')
    if not close(e.r, [6., 8.]) or e.outs[0] is not None or not close(e.outs[1], [2., 4.]): rep.fail('output buffer', 'wrong %s' % e.outs)
    # two objects of one class do not share flags
    x, y = Ch([1., 2.]), Ch([1., 2.]); e, f = Buf(a=x), Buf(a=y); e.r; f.r; y.x = np.array([5., 5.]); rep.count('two')
    if not close(f.r, [10., 10.]) or not close(e.r, [2., 4.]) or len(e.outs) != 1: rep.fail('two objects', 'flags shared')

def pair(a, b, seen=None):
    """Corresponding variables of two structurally equal graphs."""
    seen = {} if seen is None else seen
    if id(a) in seen: return seen
    seen[id(a)] = (a, b)
    for k in a.dterms:
        if type(a) is Ch: break
        if k in a.__dict__: pair(a.__dict__[k], b.__dict__[k], seen)
    return seen

class Remember(Ch):
    """keeps state derived from its inputs: by properties and by its change callback"""
    dterms = 'a', 'b'; terms = 't', 'u'
    @depends_on('t')
    def pt(self): return self.t * 3.
    @depends_on('u', 't')
    def put(self): return self.u + self.t
    @depends_on('a')
    def pa(self): return self.a.r ** 2
    def on_changed(self, which):
        if 't' in which: self.__dict__['m_t'] = self.t * 7.
        if 'u' in which: self.__dict__['m_u'] = self.u * 11.
        if 'b' in which: self.__dict__['m_b'] = self.b.r * 13.
    def compute_r(self): return self.pa * self.pt + self.put + self.__dict__['m_t'] + self.__dict__['m_u'] + self.__dict__['m_b']
    def compute_dr_wrt(self, wrt):
        J = None
        if wrt is self.a: J = sp.diags(2. * self.a.r * self.pt)
        if wrt is self.b: J = sp.eye(wrt.size) * 13. if J is None else J + sp.eye(wrt.size) * 13.
        return J

def remembering(rep, rng, how_many):
    """operations with remembered state, copied at any point of a history"""
    for t in range(how_many):
        ref = [dict(a=rng.rand(2), b=rng.rand(2), t=float(rng.randint(1, 9)), u=float(rng.randint(1, 9)))]
        o = Remember(a=Ch(ref[0]['a']), b=Ch(ref[0]['b']), t=ref[0]['t'], u=ref[0]['u']); objs = [o]; tops = [o * 2.]; hist = []
        for s in range(rng.randint(3, 12)):
            i = rng.randint(len(objs)); o, R = objs[i], ref[i]; k = rng.randint(9)
            try:
                if k == 0: R['t'] = float(rng.randint(1, 9)); o.t = R['t']; hist.append('%d.t' % i)
                elif k == 1: R['u'] = float(rng.randint(1, 9)); o.u = R['u']; hist.append('%d.u' % i)
                elif k == 2: n = 'ab'[rng.randint(2)]; R[n] = rng.rand(2); getattr(o, n).x = R[n].copy(); hist.append('%d.%s.x' % (i, n))
                elif k == 3: n = 'ab'[rng.randint(2)]; R[n] = rng.rand(2); setattr(o, n, Ch(R[n])); hist.append('%d.%s' % (i, n))
                elif k == 4: R['t'] = float(rng.randint(1, 9)); R['u'] = float(rng.randint(1, 9)); o.set(t=R['t'], u=R['u']); hist.append('%d.set' % i)
                elif k == 5: o.pt if rng.rand() < .5 else o.put; hist.append('%d.prop' % i)
                elif k == 6 and len(objs) < 4:
                    q = tops[i].copy() if rng.rand() < .5 else pickle.loads(pickle.dumps(tops[i]))
                    tops.append(q); objs.append(q.a); ref.append(dict(R)); hist.append('copy %d' % i)
                for j, (o, R) in enumerate(zip(objs, ref)):
                    if rng.rand() < .4: continue
                    hist.append('r%d' % j); case = 'an operation with remembered state, history %s' % hist; rep.count(('remember', t, s, j))
                    w = R['a'] ** 2 * R['t'] * 3. + R['u'] + R['t'] + 7. * R['t'] + 11. * R['u'] + 13. * R['b']
                    if not close(tops[j].r, 2. * w, 1e-9): rep.fail(case, 'object %d has value %s, expected %s' % (j, arr(tops[j].r), arr(2. * w)))
                    if o.pt != 3. * R['t'] or o.put != R['u'] + R['t']: rep.fail(case, 'object %d: a property is stale' % j)
                    if rng.rand() < .5: cmpJ(rep, case + ' object %d' % j, tops[j].dr_wrt(o.a), np.diag(4. * R['a'] * 3. * R['t']))
            except Stop: raise
            except Exception as e:
                rep.fail('an operation with remembered state, history %s' % hist, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:])); break

def c13(rep):
    rng = rep.rng(13)
    remembering(rep, rep.rng(1313), N(rep, 60, 500))
    for t in range(N(rep, 60, 400)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 8), avoid=('floor',))
        if not ok_values(g): continue
        root = len(g.n) - 1
        if g.n[root]['op'] == 'leaf': continue
        live = g.build()
        for _ in range(rng.randint(0, 4)):
            i = rng.randint(len(g.n)); live[i].r
            if rng.rand() < .5: live[root].dr_wrt(live[rng.randint(root)])
        for _ in range(rng.randint(0, 2)): mutate(rng, g, live, ('val', 'entry', 'kid'))
        how = ['copy', 'm', 'pickle'][rng.randint(3)]
        case = '%s of graph %s' % (how, g.text())
        try:
            cp = ch.copy(live[root]) if how == 'copy' else live[root].copy() if how == 'm' else pickle.loads(pickle.dumps(live[root], 2 if rng.rand() < .5 else -1))
            rep.count((g.text(), how))
            m = pair(live[root], cp)
            other = [m[id(o)][1] if id(o) in m else None for o in live]
            G1, G2 = g, g.copy()
            for i in range(len(g.n)):
                if other[i] is not None and other[i] is live[i]: rep.fail(case, 'node %d is shared with the copy' % i)
            for rnd in range(4):
                for (gg, objs, nm) in ((G1, live, 'original'), (G2, other, 'copy')):
                    v = gg.vals()[root]
                    if not close(objs[root].r, v, 1e-9): rep.fail(case, '%s has a wrong value after %d rounds: %s vs %s' % (nm, rnd, arr(objs[root].r), arr(v)))
                    for k in leaves(gg):
                        if objs[k] is None: continue
                        cmpJ(rep, case + ' %s wrt %d' % (nm, k), objs[root].dr_wrt(objs[k]), gg.jac(root, k))
                gg, objs = [(G1, live), (G2, other)][rng.randint(2)]
                have = [i for i in leaves(gg) if objs[i] is not None]
                if not have: break
                i = have[rng.randint(len(have))]
                old = gg.n[i]['val']; new = rng.uniform(.4, 1.6, np.shape(old))
                gg.n[i]['val'] = new
                if not ok_values(gg): gg.n[i]['val'] = old; continue
                if rng.rand() < .5 or np.ndim(new) == 0: objs[i].x = np.array(new)
                else: objs[i][...] = new
        except Exception as e:
            rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
    # function-style expressions
    rep.section = 'function-style expressions'
    for t in range(N(rep, 10, 60)):
        fn = lambda a, b: ch.sin(a) * b + a
        x, y = Ch(rng.rand(3)), Ch(rng.rand(3)); e = Ch(fn); e.a = x; e.b = y
        if rng.rand() < .6: e.r
        if rng.rand() < .5: e.dr_wrt(x)
        if rng.rand() < .5: e.label = 'name'
        before = {k: v for k, v in e.__dict__.items() if k[0] != '_'}
        c = e.copy() if rng.rand() < .5 else pickle.loads(pickle.dumps(e)); rep.count(('lambda', t))
        if any(e.__dict__.get(k) is not v for k, v in before.items()): rep.fail('copy of a function-style expression', 'the original was altered: %s' % [k for k, v in before.items() if e.__dict__.get(k) is not v])
        if not close(c.r, e.r) or not close(e.r, np.sin(x.r) * y.r + x.r): rep.fail('copy of a function-style expression', 'differs')
        c.a = rng.rand(3); y.x = rng.rand(3)
        if not close(e.r, np.sin(x.r) * y.r + x.r) or not close(c.r, np.sin(c.a.r) * c.b.r + c.a.r): rep.fail('copy of a function-style expression, changed', 'wrong value')
        if not close(dense(e.dr_wrt(y)), np.diag(np.sin(x.r))) or not close(dense(c.dr_wrt(c.b)), np.diag(np.sin(c.a.r))): rep.fail('copy of a function-style expression, changed', 'wrong derivative')
    rep.section = ''
    # cached dependent properties, linalg, lambda, nested
    for t in range(N(rep, 6, 30)):
        a = rng.rand(3, 2) + np.eye(3, 2)
        for nm, mk in (('svd', lambda x: ch.linalg.svd(x)[1]), ('pinv', lambda x: ch.linalg.pinv(x)), ('inv', lambda x: ch.linalg.inv(x.T.dot(x)))):
            x = Ch(a.copy()); e = mk(x); e.r
            if rng.rand() < .5: e.dr_wrt(x)
            c = e.copy(); rep.count((nm, t))
            y = pair(e, c)[id(x)][1]
            if not close(c.r, e.r) or not close(dense(c.dr_wrt(y)), dense(e.dr_wrt(x))): rep.fail('copy of %s' % nm, 'differs')
            y.x = a * 2; ref = mk(Ch(a * 2)); o = mk(Ch(a))
            if not close(c.r, ref.r) or not close(e.r, o.r) or not close(dense(c.dr_wrt(y)), dense(ref.dr_wrt(ref_x(ref)))): rep.fail('copy of %s, changed' % nm, 'differs')

def ref_x(e):
    while type(e) is not Ch: e = e.__dict__[[k for k in e.dterms if k in e.__dict__][0]]
    return e

def c14(rep):
    rng = rep.rng(14)
    for t in range(N(rep, 60, 400)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 8), avoid=('floor', 'cat') if rng.rand() < .5 else ('floor',))
        root = len(g.n) - 1
        if not ok_values(g) or g.n[root]['op'] == 'leaf': continue
        live = g.build()
        for _ in range(rng.randint(0, 4)): live[rng.randint(len(g.n))].r
        if rng.rand() < .5: live[root].dr_wrt(live[rng.randint(root)])
        vals = g.vals()
        sub = sorted(g.sub(root) - {root})
        old = sub[rng.randint(len(sub))]
        sub_r = g.sub(root)
        # replacement: a fresh variable, or a fresh expression of fresh variables (placed before everything)
        newv = rng.uniform(.4, 1.6, vals[old].shape)
        h = G([dict(op='leaf', val=newv), dict(op='sin', kids=[0], args=())] + [dict(n, kids=[k + 2 for k in n['kids']]) if 'kids' in n else dict(n) for n in g.n])
        use = rng.randint(2)
        if rng.rand() < .7:
            # nodes reachable from the root refer to the replacement
            todo, seen = [root], set()
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i); n = h.n[i + 2]
                if 'kids' not in n: continue
                todo += [k - 2 for k in n['kids'] if k - 2 != old]
            for i in seen:
                n = h.n[i + 2]
                if 'kids' in n: n['kids'] = [use if k == old + 2 else k for k in n['kids']]
            if not ok_values(h): continue
            z = Ch(newv.copy()); zz = ch.sin(z)
            case = 'replace %d in graph %s' % (old, g.text())
            try:
                ret = live[root].replace(live[old], [z, zz][use])
                rep.count((g.text(), old))
                objs = [z, zz] + live
                for rnd in range(3):
                    v = h.vals()
                    for i in range(len(h.n)):
                        if not close(objs[i].r, v[i], 1e-9): rep.fail(case, 'node %d after replacement and %d changes: %s vs %s' % (i - 2, rnd, arr(objs[i].r), arr(v[i])))
                    for k in leaves(h):
                        cmpJ(rep, case + ' wrt %d' % (k - 2), objs[root + 2].dr_wrt(objs[k]), h.jac(root + 2, k))
                    k = leaves(h)[rng.randint(len(leaves(h)))]; o = h.n[k]['val']
                    h.n[k]['val'] = rng.uniform(.4, 1.6, np.shape(o))
                    if ok_values(h): objs[k].x = np.array(h.n[k]['val'])
                    else: h.n[k]['val'] = o
            except Exception as e:
                rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
    # operations whose inputs need not all be given: which input an object is given as matters
    class Opt(Ch):
        dterms = 'a', 'b'; terms = 'k', 'l'
        def compute_r(self): return sum(w * getattr(self, n).r for n, w in (('a', 2.), ('b', 3.)) if hasattr(self, n)) + sum(w * float(getattr(self, n)[0]) for n, w in (('k', 5.), ('l', 7.)) if hasattr(self, n))
        def compute_dr_wrt(self, wrt):
            w = sum(w for n, w in (('a', 2.), ('b', 3.)) if getattr(self, n, None) is wrt)
            return sp.eye(wrt.size, wrt.size, format='csc') * w if w else None
    for t in range(N(rep, 20, 100)):
        x, y, arg = Ch(rng.rand(3)), Ch(rng.rand(3)), [2.]
        def one():
            kw = {n: (x, y)[rng.randint(2)] for n in 'ab' if rng.rand() < .6}; kw.update({n: arg for n in 'kl' if rng.rand() < .5})
            return kw if 'a' in kw or 'b' in kw else dict(kw, a=x)
        kws = [one() for _ in range(3)]
        val = lambda: [np.sin(sum(w * kw[n].r for n, w in (('a', 2.), ('b', 3.)) if n in kw) + sum(w * arg[0] for n, w in (('k', 5.), ('l', 7.)) if n in kw)) for kw in kws]
        os_ = [Opt(**kw) for kw in kws]; e = ch.sin(os_[0]) + ch.sin(os_[1]) * 2. + ch.sin(os_[2]) * 4.; case = 'remove_redundancy of operations with the inputs %s' % [sorted((k, 'xy'[v is y] if k in 'ab' else '') for k, v in kw.items()) for kw in kws]
        if t % 2: e.r
        e.remove_redundancy(); rep.count(case)
        for rnd in range(2):
            v = val()
            if not close(e.r, v[0] + 2 * v[1] + 4 * v[2]): rep.fail(case, 'value %s' % arr(e.r))
            x.x = rng.rand(3)
        # an argument given under two names
        o = Opt(a=x, k=arg, l=arg); new = [3.]; o.r; o.replace(arg, new); rep.count('argument under two names')
        if o.k is not new or o.l is not new or not close(o.r, 2 * x.r + 36.): rep.fail('replacement of an argument given under two names', arr(o.r))
    # an expression that is an argument (no differentiable input) of another
    class Scaled(Ch):
        dterms = 'x',; terms = 'k',
        def compute_r(self): return self.x.r * float(np.sum(self.k.r))
        def compute_dr_wrt(self, wrt):
            if wrt is self.x: return sp.eye(self.x.size, self.x.size) * float(np.sum(self.k.r))
    for t in range(6):
        x, k, w = Ch(rng.rand(3)), Ch(rng.rand(2)), Ch(rng.rand(2) + 2); kk = [ch.sin(k), ch.exp(ch.sin(k)), k * 2. + ch.sin(k)][t % 3]
        e = Scaled(x=x, k=kk); root = e if t < 3 else ch.sin(e) + e; rep.count(('replace in an argument', t))
        if t % 2: root.r
        root.replace(k, w)
        f = lambda a: [ch.sin(a), ch.exp(ch.sin(a)), a * 2. + ch.sin(a)][t % 3]
        s1 = x.r * np.sum(f(w).r); want = s1 if t < 3 else np.sin(s1) + s1
        e.set(k=e.k); e._cache['r'] = None; [p.clear_cache() for p in list(e._parents)]   # reactions to arguments are not followed by the library
        if not close(e.r, s1): rep.fail('replacement of a variable inside an argument', '%s vs %s' % (arr(e.r), arr(s1)))
    for t in range(N(rep, 30, 200)):
        # the replacement is an expression of the replaced object
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 8), avoid=('floor', 'cat'))
        root = len(g.n) - 1
        if not ok_values(g) or g.n[root]['op'] == 'leaf': continue
        sub = sorted(g.sub(root)); old = sub[rng.randint(len(sub) - 1)]
        h = G([dict(n) for n in g.n]); h.n.append(dict(op='sin', kids=[old], args=())); new = len(h.n) - 1; m = {}
        for i in sub:
            if i != old and 'kids' in h.n[i]: h.n.append(dict(h.n[i], kids=[new if k == old else m.get(k, k) for k in h.n[i]['kids']])); m[i] = len(h.n) - 1
        if not ok_values(h): continue
        live = g.build(); case = 'replace %d by its sine in graph %s' % (old, g.text())
        if rng.rand() < .5: live[root].r; live[root].dr_wrt(live[leaves(g)[0]])
        try:
            live[root].replace(live[old], ch.sin(live[old])); rep.count((g.text(), old, 'self'))
            for rnd in range(2):
                if not close(live[root].r, h.vals()[m[root]], 1e-9): rep.fail(case, 'after %d changes: %s vs %s' % (rnd, arr(live[root].r), arr(h.vals()[m[root]])))
                for k in leaves(g): cmpJ(rep, case + ' wrt %d' % k, live[root].dr_wrt(live[k]), h.jac(m[root], k))
                k = leaves(g)[rng.randint(len(leaves(g)))]; o = h.n[k]['val']; h.n[k]['val'] = rng.uniform(.4, 1.6, np.shape(o))
                if ok_values(h): live[k].x = np.array(h.n[k]['val'])
                else: h.n[k]['val'] = o
        except Exception as e:
            rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
    for t in range(N(rep, 60, 400)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 6), avoid=('floor',))
        # duplicate some nodes, then combine
        for _ in range(rng.randint(1, 4)):
            nl = [i for i, n in enumerate(g.n) if n['op'] != 'leaf']
            if not nl: break
            i = nl[rng.randint(len(nl))]
            g.n.append(dict(g.n[i], kids=list(g.n[i]['kids'])))
            j = len(g.n) - 1
            g.n.append(dict(op=['add', 'mul', 'sub'][rng.randint(3)], kids=[i, j] if rng.rand() < .5 else [j, i], args=()))
            if rng.rand() < .4: g.n.append(dict(op='sin', kids=[j], args=()))
        root = len(g.n) - 1
        if g.n[root]['op'] == 'leaf' or not ok_values(g): continue
        live = g.build()
        if rng.rand() < .4 and len(leaves(g)) > 1:
            # two variables holding the same array object
            i, j = leaves(g)[:2]
            if np.shape(g.n[i]['val']) == np.shape(g.n[j]['val']):
                g2 = g.copy(); g2.n[j]['val'] = g2.n[i]['val']
                if ok_values(g2):
                    g.n[j]['val'] = g.n[i]['val']; shared = np.array(g.n[i]['val']); live[i].x = shared; live[j].x = shared
        if rng.rand() < .5: live[root].r; live[root].dr_wrt(live[leaves(g)[0]])
        case = 'remove_redundancy of graph %s' % g.text()
        try:
            live[root].remove_redundancy()
            rep.count((g.text(), 'red'))
            for rnd in range(3):
                v = g.vals()[root]
                if not close(live[root].r, v, 1e-9): rep.fail(case, 'value after %d changes: %s vs %s' % (rnd, arr(live[root].r), arr(v)))
                for k in leaves(g):
                    cmpJ(rep, case + ' wrt %d' % k, live[root].dr_wrt(live[k]), g.jac(root, k))
                k = leaves(g)[rng.randint(len(leaves(g)))]; o = g.n[k]['val']
                g.n[k]['val'] = rng.uniform(.4, 1.6, np.shape(o))
                if ok_values(g): live[k].x = np.array(g.n[k]['val'])
                else: g.n[k]['val'] = o
        except Exception as e:
            rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))

    # variables of one entry that hold the same array; different operations of the same name
    for t in range(N(rep, 40, 200)):
        n = int(rng.choice([1, 1, 2])); shared = rng.uniform(.5, 1.5, n); x, y = Ch(0.), Ch(0.); x.x = shared; y.x = shared
        A = type('Op', (Ch,), dict(dterms='a', compute_r=lambda self: self.a.r * 2., compute_dr_wrt=lambda self, wrt: sp.eye(wrt.size) * 2. if wrt is self.a else None))
        B = type('Op', (Ch,), dict(dterms='a', compute_r=lambda self: self.a.r * 5., compute_dr_wrt=lambda self, wrt: sp.eye(wrt.size) * 5. if wrt is self.a else None))
        pool = [(x, 1, 0), (y, 0, 1), (A(x), 2, 0), (B(x), 5, 0), (A(y), 0, 2), (A(x), 2, 0), (B(y), 0, 5), (x * 1., 1, 0), (x + x, 2, 0)]
        pick = [pool[rng.randint(len(pool))] for _ in range(rng.randint(2, 6))]; e = pick[0][0]
        for o in pick[1:]: e = e + o[0]
        cx, cy = sum(p[1] for p in pick), sum(p[2] for p in pick); case = 'remove_redundancy of a sum over variables holding one array of %d, coefficients %s' % (n, [p[1:] for p in pick]); rep.count(('merge', t))
        if len(pick) < 2: continue
        try:
            if rng.rand() < .5: e.r
            e.remove_redundancy()
            if not close(e.r, shared * (cx + cy)): rep.fail(case, 'value %s' % e.r)
            for v in (x, y):
                v.x = rng.rand(n)
                if not close(e.r, x.r * cx + y.r * cy): rep.fail(case, 'value %s after a change, expected %s' % (e.r, x.r * cx + y.r * cy))
                for w, c in ((x, cx), (y, cy)): cmpJ(rep, case, e.dr_wrt(w), np.eye(n) * c)
        except Stop: raise
        except Exception as ex: rep.fail(case, 'raised %s\n%s' % (type(ex).__name__, traceback.format_exc()[-900:]))

def c19(rep):
    rng = rep.rng(19)
    bodies = [
        (('a', 'b'), lambda a, b: a * b + a, lambda a, b: a * b + a),
        (('a', 'b'), lambda a, b: ch.sin(a) - b * b, lambda a, b: np.sin(a) - b * b),
        (('a', 'b'), lambda a, b: ch.tile(a, 2) * 2. + b.sum(), lambda a, b: np.tile(a, 2) * 2. + b.sum()),
        (('a', 'b', 'c'), lambda a, b, c: (a + b) * (a + c), lambda a, b, c: (a + b) * (a + c)),
        (('a', 'b', 'c'), lambda a, b, c: ch.concatenate([a, b * a, c]), lambda a, b, c: np.concatenate([a, b * a, c])),
        (('a',), lambda a: a.dot(a) + ch.cos(a), lambda a: a.dot(a) + np.cos(a)),
        (('a', 'b'), lambda a, b: a / (b * b + 1.), lambda a, b: a / (b * b + 1.)),
        (('x', 'y'), lambda x, y: x * 3. - y, lambda x, y: x * 3. - y),
        (('a', 'b'), lambda a, b: a * 2. + ch.floor(b * 3.), lambda a, b: a * 2. + np.floor(b * 3.)),
    ]
    kinky = bodies[-1][2]
    for t in range(N(rep, 60, 400)):
        if rep.time_left() < 0: break
        lv = [Ch(rng.uniform(.5, 1.5, 3)) for _ in range(3)]
        if t % 3 == 0: lv = [Ch(lv[0].r.copy()) for _ in range(3)]      # distinct variables of equal value
        if t % 6 == 0:                                                  # ... even of the same array
            for v in lv[1:]: v.x = lv[0].x
        # what an argument may be: a variable or an expression of variables; (object, numpy of leaf values)
        pool = [(lv[0], lambda v: v[0]), (lv[1], lambda v: v[1]), (lv[2], lambda v: v[2]), (lv[0] * lv[1], lambda v: v[0] * v[1]), (ch.sin(lv[2]), lambda v: np.sin(v[2]))]
        if t % 4 == 0:
            # initial arguments given as plain arrays or numbers
            from chumpy.ch import ChLambda
            a0, b0 = rng.rand(3), [rng.rand(3), 2.5][t % 8 == 0]; rep.count(('plain initial arguments', t))
            e = ChLambda(lmb=lambda a, b: ch.sin(a) * b + a, initial_args=dict(a=a0, b=b0))
            if not close(e.r, np.sin(a0) * b0 + a0): rep.fail('function with plain initial arguments', arr(e.r))
            e.a = lv[0]
            if not close(e.r, np.sin(lv[0].r) * b0 + lv[0].r) or not close(dense(e.dr_wrt(lv[0])), np.diag(np.cos(lv[0].r) * b0 + 1)): rep.fail('function with plain initial arguments, changed', arr(e.r))
        objs = []
        for _ in range(rng.randint(1, 3)):
            names, body, npb = bodies[rng.randint(len(bodies))]
            how = rng.randint(3)
            cur = {n: rng.randint(len(pool)) for n in names}
            if how == 0:
                e = Ch(body)
                for n in rng.permutation(list(names)): setattr(e, n, pool[cur[n]][0])
            elif how == 1:
                from chumpy.ch import ChLambda
                e = ChLambda(lmb=body, initial_args={n: pool[cur[n]][0] for n in names})
            else:
                e = Ch(body); e.set(**{n: pool[cur[n]][0] for n in names})
            objs.append([e, names, npb, cur])
        hist = []
        use_outer = rng.rand() < .5
        try:
            outer = [o[0] * 2. + 1. for o in objs]
            for s in range(5):
                for q, (e, names, npb, cur) in enumerate(objs):
                    f = lambda a, npb=npb, names=names, cur=cur: npb(**{n: pool[cur[n]][1](a) for n in names})
                    leafv = [v.r for v in lv]
                    case = 'function of %s, history %s, object %d' % (names, hist, q)
                    rep.count((t, s, q))
                    want = np.atleast_1d(f(leafv))
                    tgt = e
                    if rng.rand() < .8 and not close(e.r, want, 1e-9): rep.fail(case, 'value %s, expected %s' % (arr(e.r), arr(want)))
                    if use_outer and rng.rand() < .5 and not close(outer[q].r, want * 2 + 1, 1e-9): rep.fail(case, 'value of an expression of it')
                    if npb is kinky:
                        b3 = 3. * pool[cur['b']][1](leafv)
                        if np.abs(b3 - np.round(b3)).min() < .03: continue
                    for i in range(3):
                        if rng.rand() < .5:
                            J = e.dr_wrt(lv[i]); cmpJ(rep, case + ' wrt variable %d' % i, J, fd(f, leafv, i))
                    for n in names:
                        if cur[n] > 2 and list(cur.values()).count(cur[n]) == 1:
                            # wrt an argument that is an expression: treated as independent
                            av = {m: pool[cur[m]][1](leafv) for m in names}
                            fa = lambda a, n=n, av=av, npb=npb: npb(**dict(av, **{n: a[0]}))
                            cmpJ(rep, case + ' wrt argument %s' % n, e.dr_wrt(pool[cur[n]][0]), fd(fa, [av[n]], 0))
                k = rng.randint(3)
                if k == 0:
                    i = rng.randint(3); lv[i].x = rng.uniform(.5, 1.5, 3) if t % 3 else lv[(i + 1) % 3].r * rng.choice([1., 1.5]); hist.append('leaf%d' % i)
                else:
                    q = rng.randint(len(objs)); e, names, npb, cur = objs[q]
                    n = names[rng.randint(len(names))]; cur[n] = rng.randint(len(pool))
                    if k == 1: setattr(e, n, pool[cur[n]][0])
                    else: e.set(**{n: pool[cur[n]][0]})
                    hist.append('obj%d.%s:=%d' % (q, n, cur[n]))
        except Exception as e:
            rep.fail('function-style history %s' % hist, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
    # grouping
    from chumpy.ch import ChGroup
    for t in range(N(rep, 30, 150)):
        x, y = Ch(rng.uniform(.5, 1.5, 3)), Ch(rng.uniform(.5, 1.5, 3))
        if t % 3 == 0: y = Ch(x.r.copy())
        pool = [(x * y, lambda v: v[0] * v[1]), (ch.sin(x), lambda v: np.sin(v[0])), (y, lambda v: v[1]), (x, lambda v: v[0])]
        cur = dict(a=rng.randint(2), b=2)
        inner = Ch(lambda a, b: a * b + ch.cos(a))
        inner.a = pool[cur['a']][0]; inner.b = y
        e = ChGroup(result=inner, args=dict(a=pool[cur['a']][0], b=y))
        hist = []
        try:
            for s in range(4):
                body = lambda a, b: a * b + np.cos(a)
                f = lambda v: body(pool[cur['a']][1](v), pool[cur['b']][1](v))
                v = [x.r, y.r]; case = 'group, history %s' % hist
                rep.count(('group', t, s))
                if rng.rand() < .7 and not close(e.r, f(v), 1e-9): rep.fail(case, 'value %s vs %s' % (e.r, f(v)))
                if cur['a'] != cur['b']:
                    for n in 'ab':
                        if n == 'b' and cur['b'] < 2 or cur[n] >= 2 and cur['ab'.replace(n, '')] < 2: continue   # the other argument depends on it too
                        av = {m: pool[cur[m]][1](v) for m in 'ab'}
                        cmpJ(rep, case + ' wrt argument ' + n, e.dr_wrt(pool[cur[n]][0]), fd(lambda a: body(**dict(av, **{n: a[0]})), [av[n]], 0))
                g2 = e * 2.
                cmpJ(rep, case + ' wrt variable', g2.dr_wrt(x), 2 * fd(f, v, 0) if True else None)
                cmpJ(rep, case + ' wrt variable 2', g2.dr_wrt(y), 2 * fd(f, v, 1))
                k = rng.randint(3)
                if k == 0: y.x = x.r.copy(); hist.append('y:=x value')
                elif k == 1: [x, y][rng.randint(2)].x = rng.uniform(.5, 1.5, 3); hist.append('change')
                else:
                    n = 'ab'[rng.randint(2)]; cur[n] = rng.randint(4); setattr(e, n, pool[cur[n]][0]); hist.append('%s:=%d' % (n, cur[n]))
        except Exception as ex:
            rep.fail('group, history %s' % hist, 'raised %s\n%s' % (type(ex).__name__, traceback.format_exc()[-900:]))

    # grouping some of the inputs only
    for t in range(N(rep, 20, 100)):
        x, y = Ch(rng.uniform(.5, 1.5, 3)), Ch(rng.uniform(.5, 1.5, 3)); inner = Ch(lambda a, b: a * b + ch.cos(a) * b); A = [x, x * 2.][rng.randint(2)]; s = 1. if A is x else 2.
        inner.a = A; inner.b = y; a = s * x.r; e = ChGroup(result=inner, args=dict(a=A)); top = e * 2. if rng.rand() < .5 else e; f = 1. if top is e else 2.; rep.count(('partial', t))
        def agree(which):
            if which != 'dr' and not close(top.r, f * (s * x.r * y.r + np.cos(s * x.r) * y.r)): return False
            return close(dense(top.dr_wrt(y)), f * np.diag(s * x.r + np.cos(s * x.r))) and close(dense(top.dr_wrt(x)), f * s * np.diag(y.r - np.sin(s * x.r) * y.r))
        try:
            if not agree('both'): rep.fail('grouping one of two arguments', 'value %s or derivatives differ from the expression' % arr(top.r)); continue
            x.x = rng.uniform(.5, 1.5, 3)
            if not agree('both'): rep.fail('grouping one of two arguments', 'wrong after a change of the grouped argument'); continue
            y.x = rng.uniform(.5, 1.5, 3)
            if not agree('both'): rep.fail('grouping', '', known='ChGroup(result, args) with args naming only some of the inputs of result is stale after a change of another input')
        except Stop: raise
        except Exception as ex: rep.fail('grouping one of two arguments', 'raised %s\n%s' % (type(ex).__name__, traceback.format_exc()[-900:]))

def c20(rep):
    rng = rep.rng(20)
    x = Ch([1., 2.])
    sd = getattr(x, '_superdot', None)
    fm = {'dense': lambda a: a, 'matrix': lambda a: np.matrix(a), 'csc': sp.csc_matrix, 'csr': sp.csr_matrix, 'coo': sp.coo_matrix}
    if sd is not None:
        for t in range(N(rep, 80, 500)):
            m, k, n = [rng.randint(1, 4) for _ in range(3)]
            A = rng.randint(-2, 3, (m, k)).astype(float); B = rng.randint(-2, 3, (k, n)).astype(float)
            for fa in fm:
                for fb in fm:
                    rep.count((m, k, n, fa, fb))
                    try: R = sd(fm[fa](A), fm[fb](B))
                    except Exception as e: rep.fail('product %s %s of %s %s' % (fa, fb, A.shape, B.shape), 'raised %s' % e); continue
                    D = dense(R) if not np.isscalar(R) else np.array([[R]])
                    if np.isscalar(R) and (m, n) != (1, 1) or not close(D, A.dot(B)): rep.fail('product %s %s' % (fa, fb), '%s\n%s\n%s' % (arr(A), arr(B), arr(D)))
            if sd(None, B) is not None or sd(A, None) is not None: rep.fail('product with nothing', 'not None')
            c = float(rng.randint(-3, 4)) if rng.rand() < .5 else rng.randn()
            for f in fm:
                a1 = rng.randint(-2, 3, (m, 1)).astype(float)
                for R, W in ((sd(fm[f](a1), c), a1 * c), (sd(c, fm[f](a1.T)), a1.T * c), (sd(fm[f](a1), np.array([[c]])), a1 * c), (sd(np.array([[c]]), fm[f](a1.T)), a1.T * c), (sd(fm[f](a1), np.array([c])), a1 * c), (sd(np.array([c]), fm[f](a1.T)), a1.T * c)):
                    rep.count(('num', f)); D = dense(R)
                    if not close(D, W, 1e-12): rep.fail('product with a number, %s' % f, '%s vs %s' % (arr(D), arr(W)))
    for t in range(N(rep, 60, 400)):
        if rep.time_left() < 0: break
        g = rand_graph(rng, nleaf=rng.randint(1, 4), nops=rng.randint(2, 8), avoid=('T',))
        root = len(g.n) - 1
        if g.n[root]['op'] == 'leaf' or not ok_values(g): continue
        for mode in ('plain', 'dense', 'sparse', 'mixed'):
            def kwf(i):
                if mode == 'plain' or g.n[i]['op'] == 'leaf': return {}
                if g.n[i]['op'] in ('resh', 'tile') and not hasattr(ch, {'resh': 'Reshape', 'tile': 'Tile'}[g.n[i]['op']]): return {}
                if mode == 'dense': return dict(make_dense=True)
                if mode == 'sparse': return dict(make_sparse=True)
                return [{}, dict(make_dense=True), dict(make_sparse=True)][rng.randint(3)]
            chs = g.build(kwf=kwf)
            kw = None
            for tgt in leaves(g):
                case = 'storage %s: graph %s wrt %d' % (mode, g.text(), tgt)
                try:
                    want = g.jac(root, tgt)
                    for again in range(2):
                        J = chs[root].dr_wrt(chs[tgt])
                        rep.count((g.text(), mode, tgt, again)); cmpJ(rep, case, J, want, g.reaches(root, tgt))
                        if J is not None and np.shape(J) != want.shape: rep.fail(case, 'shape %s' % (np.shape(J),))
                        if J is not None and mode == 'dense' and kwf(root) and sp.issparse(J): rep.fail(case, 'dense storage requested, got sparse')
                        if J is not None and mode == 'sparse' and kwf(root) and not sp.issparse(J): rep.fail(case, 'sparse storage requested, got dense')
                        if again == 0 and rng.rand() < .3:
                            L = rng.randn(2, want.shape[0])
                            cmpJ(rep, case + ' lop', chs[root].lop(chs[tgt], L), L.dot(want))
                except Exception as e:
                    rep.fail(case, 'raised %s\n%s' % (type(e).__name__, traceback.format_exc()[-900:]))
    # mostly-zero dense results
    from chumpy.ch import Ch as C
    class Dn(C):
        dterms = 'a',
        def compute_r(self): return self.a.r * 1
        def compute_dr_wrt(self, wrt):
            if wrt is self.a: return self.M
    for t in range(N(rep, 20, 100)):
        n = rng.randint(1, 15); M = np.zeros((n, n)); nz = rng.randint(0, n + 1)
        for _ in range(nz): M[rng.randint(n), rng.randint(n)] = rng.randint(1, 5) * (1. if t % 2 else 10.**rng.randint(-13, 14))
        for kw in ({}, dict(make_dense=True), dict(make_sparse=True)):
            v = Ch(np.ones(n)); e = Dn(a=v, **kw); e.__dict__['M'] = M
            J = e.dr_wrt(v); rep.count(('mostly zero', n, nz))
            if not np.array_equal(dense(J), M): rep.fail('mostly zero %d/%d' % (nz, n), arr(dense(J)))
            f = e * 2.
            if not np.array_equal(dense(f.dr_wrt(v)), 2 * M): rep.fail('mostly zero %d/%d below a product' % (nz, n), arr(dense(f.dr_wrt(v))))
