"""Random expression graphs with an independent numpy reference."""
from hlib import *

# op: arity, numpy function, chumpy builder, operand attribute names, argument attribute names, differentiable
OPS = {}
def op(name, arity, f, b, kids, args=(), diff=True):
    OPS[name] = dict(arity=arity, f=f, b=b, kids=kids, args=args, diff=diff)
op('add', 2, lambda k: k[0] + k[1], lambda c, **kw: ch.add(a=c[0], b=c[1], **kw), ('a', 'b'))
op('sub', 2, lambda k: k[0] - k[1], lambda c, **kw: ch.subtract(a=c[0], b=c[1], **kw), ('a', 'b'))
op('mul', 2, lambda k: k[0] * k[1], lambda c, **kw: ch.multiply(a=c[0], b=c[1], **kw), ('a', 'b'))
op('div', 2, lambda k: k[0] / k[1], lambda c, **kw: ch.divide(x1=c[0], x2=c[1], **kw), ('x1', 'x2'))
op('sin', 1, lambda k: np.sin(k[0]), lambda c, **kw: ch.sin(x=c[0], **kw), ('x',))
op('cos', 1, lambda k: np.cos(k[0]), lambda c, **kw: ch.cos(x=c[0], **kw), ('x',))
op('atan', 1, lambda k: np.arctan(k[0]), lambda c, **kw: ch.arctan(x=c[0], **kw), ('x',))
op('neg', 1, lambda k: -k[0], lambda c, **kw: ch.negative(x=c[0], **kw), ('x',))
op('sq', 1, lambda k: np.square(k[0]), lambda c, **kw: ch.square(x=c[0], **kw), ('x',))
op('floor', 1, lambda k: np.floor(np.real(k[0])), lambda c, **kw: ch.floor(x=c[0], **kw), ('x',), diff=False)
op('sum', 1, lambda k, ax: np.atleast_1d(np.sum(k[0], axis=ax)), lambda c, ax, **kw: ch.sum(x=c[0], axis=ax, **kw), ('x',), ('axis',))
op('mean', 1, lambda k, ax: np.atleast_1d(np.mean(k[0], axis=ax)), lambda c, ax, **kw: ch.mean(x=c[0], axis=ax, **kw), ('x',), ('axis',))
op('ssq', 1, lambda k: np.atleast_1d(np.sum(k[0]**2)), lambda c, **kw: ch.SumOfSquares(x=c[0], **kw), ('x',))
op('dot', 2, lambda k: np.atleast_1d(k[0].dot(k[1])), lambda c, **kw: ch.dot(a=c[0], b=c[1], **kw), ('a', 'b'))
op('T', 1, lambda k: k[0].T, lambda c, **kw: ch.transpose(c[0], **kw), ('a',))
op('resh', 1, lambda k, s: k[0].reshape(s), lambda c, s, **kw: ch.Reshape(a=c[0], newshape=s, **kw) if hasattr(ch, 'Reshape') else ch.reshape(c[0], s), ('a',), ('newshape',))
op('idx', 1, lambda k, ix: k[0].ravel()[ix], lambda c, ix, **kw: ch.Select(a=c[0], idxs=ix, **kw), ('a',), ('idxs',))
op('cat', 2, lambda k, ax: np.concatenate(k, axis=ax), lambda c, ax, **kw: ch.concatenate(c, axis=ax, **kw), ('m0', 'm1'), ('axis',))
op('tile', 1, lambda k, r: np.tile(k[0], r), lambda c, r, **kw: ch.Tile(a=c[0], reps=r, **kw) if hasattr(ch, 'Tile') else ch.tile(c[0], r), ('a',), ('reps',))

class Mixed(Ch):
    """an operation with an input of its class and one of the object alone"""
    dterms = 'a',
    def compute_r(self): return self.a.r * 2. + self.b.r ** 2
    def compute_dr_wrt(self, wrt):
        J = None
        if wrt is self.a: J = sp.eye(self.a.size, format='csc') * 2.
        if wrt is self.b:
            K = sp.diags(2. * self.b.r.ravel()).tocsc(); J = K if J is None else J + K
        return J
def mixed(c, **kw):
    e = Mixed(a=c[0], **kw); e.add_dterm('b', c[1]); return e
class Lin(Ch):
    """multiplication by a constant matrix; the derivative, often zero, is sparse and does not look at the operand"""
    dterms = 'a',; terms = 'm',
    def compute_r(self): return self.m.dot(self.a.r.ravel())
    def compute_dr_wrt(self, wrt):
        if wrt is self.a: return sp.csc_matrix(self.m)
op('mixed', 2, lambda k: k[0] * 2. + k[1] ** 2, mixed, ('a', 'b'))
op('lin', 1, lambda k, m: m.dot(k[0].ravel()), lambda c, m, **kw: Lin(a=c[0], m=m, **kw), ('a',), ('m',))

class G(object):
    """kinds: list of nodes; node = dict(op, kids, args) or dict(op='leaf', val)"""
    def __init__(self, nodes): self.n = nodes
    def vals(self, upto=None, over=None, cplx=False):
        out = []
        for i, n in enumerate(self.n):
            if over and i in over: v = over[i]
            elif n['op'] == 'leaf': v = np.atleast_1d(n['val'])
            else: v = OPS[n['op']]['f']([out[k] for k in n['kids']], *n['args'])
            out.append(np.atleast_1d(np.asarray(v, cplx and np.complex128 or np.float64)))
            if i == upto: break
        return out
    def jac(self, root, tgt):
        # complex step: exact to rounding
        base = self.vals(root); cols = []
        for k in range(base[tgt].size):
            a = base[tgt].astype(np.complex128, order='C'); a.ravel()[k] += 1e-30j
            cols.append(np.imag(self.vals(root, {tgt: a}, True)[root]).ravel() / 1e-30)
        return np.array(cols).T.reshape(base[root].size, base[tgt].size)
    def reaches(self, root, tgt, diff=True):
        if root == tgt: return True
        n = self.n[root]
        if n['op'] == 'leaf' or (diff and not OPS[n['op']]['diff']): return False
        if diff and n['op'] in ('sub', 'div') and n['kids'][0] == n['kids'][1]: return False # constant
        return any(self.reaches(k, tgt, diff) for k in n['kids'])
    def sub(self, root):
        seen = set(); todo = [root]
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i); todo += list(self.n[i].get('kids', []))
        return seen
    def build(self, root=None, kwf=None):
        chs = []
        for i, n in enumerate(self.n):
            kw = kwf(i) if kwf else {}
            if n['op'] == 'leaf': chs.append(Ch(np.array(n['val'])))
            else: chs.append(OPS[n['op']]['b']([chs[k] for k in n['kids']], *n['args'], **kw))
            if i == root: break
        return chs
    def text(self):
        return '; '.join('%d:%s%s%s' % (i, n['op'], tuple(n.get('kids', ())), n.get('args') or '') if n['op'] != 'leaf' else '%d:leaf%s' % (i, np.shape(n['val'])) for i, n in enumerate(self.n))
    def copy(self):
        return G([dict(n) for n in self.n])

SH = [(2, 2), (2,), (1,), (4,), (1, 2), (2, 1)]

def args_for(rng, name, kvals):
    if name in ('sum', 'mean'):
        return (None if rng.rand() < .3 else rng.randint(kvals[0].ndim),)
    if name == 'resh':
        sz = kvals[0].size
        c = [s for s in SH + [(3,), (6,), (2, 3), (3, 2)] if np.prod(s) == sz]
        return (c[rng.randint(len(c))],) if c else None
    if name == 'idx':
        return (rng.randint(0, kvals[0].size, rng.randint(1, 5)),)
    if name == 'cat':
        a, b = kvals
        if a.ndim != b.ndim: return None
        axs = [x for x in range(a.ndim) if all(a.shape[j] == b.shape[j] for j in range(a.ndim) if j != x)]
        return (axs[rng.randint(len(axs))],) if axs else None
    if name == 'tile':
        return ((2,),)
    if name == 'lin':
        return (rng.uniform(-1, 1, (rng.randint(1, 5), kvals[0].size)) * (rng.rand() < .6),)
    if name == 'mixed' and kvals[0].shape != kvals[1].shape: return None
    return ()

def rand_graph(rng, nleaf=3, nops=7, names=None, avoid=()):
    names = names or [n for n in OPS if n not in avoid]
    nodes = [dict(op='leaf', val=rng.uniform(.4, 1.6, SH[rng.randint(len(SH))])) for _ in range(nleaf)]
    if rng.rand() < .3: nodes[0]['val'] = rng.uniform(.4, 1.6)
    elif rng.rand() < .3: nodes[-1]['val'] = np.array(nodes[0]['val'])     # distinct variables of equal value
    g = G(nodes)
    vals = g.vals()
    tries = 0
    while len(g.n) < nleaf + nops and tries < 400:
        tries += 1
        name = names[rng.randint(len(names))]
        if name == 'floor' and rng.rand() < .7: continue
        o = OPS[name]
        kids = [rng.randint(len(g.n)) if rng.rand() < .5 else len(g.n) - 1 - rng.randint(min(3, len(g.n))) for _ in range(o['arity'])]
        if o['arity'] == 2 and rng.rand() < .12: kids[1] = kids[0]
        if name in ('resh', 'cat') and any(g.n[k]['op'] == name for k in kids): continue
        kv = [vals[k] for k in kids]
        if name == 'div' and np.abs(kv[1]).min() < .3: continue
        if name == 'floor' and np.abs(kv[0] - np.round(kv[0])).min() < .02: continue
        args = args_for(rng, name, kv)
        if args is None: continue
        try:
            v = np.atleast_1d(np.asarray(o['f'](kv, *args), np.float64))
        except Exception:
            continue
        if v.size > 8 or v.size == 0 or np.abs(v).max() > 30: continue
        if name == 'dot' and (kv[0].ndim > 2 or kv[1].ndim > 2): continue
        g.n.append(dict(op=name, kids=kids, args=args)); vals.append(v)
    if 'mixed' in names and rng.rand() < .25:
        same = [(i, j) for i in range(len(vals)) for j in range(len(vals)) if vals[i].shape == vals[j].shape]
        i, j = same[rng.randint(len(same))]
        if np.abs(vals[i]).max() < 5 and np.abs(vals[j]).max() < 5: g.n.append(dict(op='mixed', kids=[i, j], args=()))
    return g

def ok_values(g, upto=None):
    """Values are moderate and away from poles and kinks."""
    try:
        vals = g.vals()
    except Exception:
        return False
    for i, n in enumerate(g.n):
        if not np.all(np.isfinite(vals[i])) or np.abs(vals[i]).max() > 200: return False
        if n['op'] == 'div' and np.abs(vals[n['kids'][1]]).min() < .2: return False
        if n['op'] == 'mixed' and vals[n['kids'][0]].shape != vals[n['kids'][1]].shape: return False
        if n['op'] == 'floor' and np.abs(vals[n['kids'][0]] - np.round(vals[n['kids'][0]])).min() < .02: return False
    return True

def leaves(g): return [i for i, n in enumerate(g.n) if n['op'] == 'leaf']

def mutate(rng, g, live, kinds=('val', 'entry', 'kid', 'arg', 'set', 'shape')):
    """One random assignment, applied to the reference (in place) and to the live objects; returns a description or None."""
    kind = kinds[rng.randint(len(kinds))]
    g2 = g.copy()
    vals = g.vals()
    if kind in ('val', 'entry'):
        i = leaves(g)[rng.randint(len(leaves(g)))]
        old = np.asarray(g.n[i]['val'])
        if kind == 'val':
            new = rng.uniform(.4, 1.6, np.shape(old))
            if rng.rand() < .2: new = old.copy()
            elif rng.rand() < .1: new = rng.randint(1, 3, np.shape(old))
            elif rng.rand() < .15: new = old * (1 + 4e-6 * rng.uniform(.1, 1, np.shape(old)))
        else:
            new = np.atleast_1d(old).copy()
            j = rng.randint(new.size); new.ravel()[j] = rng.uniform(.4, 1.6) if rng.rand() < .85 else new.ravel()[j] * (1 + 4e-6)
        g2.n[i]['val'] = new
        if not ok_values(g2): return None
        if kind == 'val': live[i].x = np.array(new) if rng.rand() < .85 else np.asfortranarray(new) if rng.rand() < .5 else np.asarray(new).tolist()
        else: live[i][np.unravel_index(j, new.shape)] = new.ravel()[j]
        g.n[i]['val'] = new
        return '%s of %d' % (kind, i)
    nl = [i for i, n in enumerate(g.n) if n['op'] != 'leaf']
    if not nl: return None
    i = nl[rng.randint(len(nl))]
    o = OPS[g.n[i]['op']]
    if kind == 'kid':
        w = rng.randint(o['arity'])
        cands = [k for k in range(i) if vals[k].shape == vals[g.n[i]['kids'][w]].shape and not (g.n[i]['op'] in ('resh', 'cat') and g.n[k]['op'] == g.n[i]['op'])]
        k = cands[rng.randint(len(cands))]
        kids = list(g.n[i]['kids']); kids[w] = k
        g2.n[i]['kids'] = kids
        if not ok_values(g2): return None
        setattr(live[i], o['kids'][w], live[k])
        g.n[i]['kids'] = kids
        return 'operand %d of %d := %d' % (w, i, k)
    if kind == 'arg' and o['args']:
        a = args_for(rng, g.n[i]['op'], [vals[k] for k in g.n[i]['kids']])
        if a is None: return None
        g2.n[i]['args'] = a
        if not ok_values(g2): return None
        if [v.shape for v in g2.vals()] != [v.shape for v in vals]: return None
        setattr(live[i], o['args'][0], a[0])
        g.n[i]['args'] = a
        return 'argument of %d := %s' % (i, a)
    if kind == 'set' and o['arity'] == 2:
        ks = []
        for w in range(2):
            cands = [k for k in range(i) if vals[k].shape == vals[g.n[i]['kids'][w]].shape and not (g.n[i]['op'] in ('resh', 'cat') and g.n[k]['op'] == g.n[i]['op'])]
            ks.append(cands[rng.randint(len(cands))])
        g2.n[i]['kids'] = ks
        if not ok_values(g2): return None
        live[i].set(**{o['kids'][0]: live[ks[0]], o['kids'][1]: live[ks[1]]})
        g.n[i]['kids'] = ks
        return 'set(%d: %s)' % (i, ks)
    if kind == 'shape':
        i = leaves(g)[rng.randint(len(leaves(g)))]
        new = rng.uniform(.4, 1.6, SH[rng.randint(len(SH))])
        g2.n[i]['val'] = new
        if not ok_values(g2): return None
        v2 = g2.vals()
        for j, n in enumerate(g2.n):
            if v2[j].size > 12 or v2[j].ndim > 2: return None
        live[i].x = np.array(new)
        g.n[i]['val'] = new
        return 'shape of %d := %s' % (i, new.shape)
    return None
