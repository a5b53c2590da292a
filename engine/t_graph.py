"""C13, C14, C19: copies, replacement, redundancy removal, function-style and grouped expressions.
Each function is proved for one node whose inputs obey the contract (induction over the height of the expression, see the
lemmas); entries named "small heaps" run the real code natively on every small expression (bounded)."""
import z3, core, load, stubs, weakref, sys, types, itertools
from core import *
import t_cache
from t_cache import mods, Arr, leaf

def cls_for(m):
    """operations without identity: value = function of class, inputs, argument"""
    if hasattr(m, '__t_graph_cls'): return getattr(m, '__t_graph_cls')
    mod = types.ModuleType('t_graph_heap'); sys.modules['t_graph_heap'] = mod
    def mk(nm):
        class K(m.Ch):
            dterms = ('a', 'b'); terms = ('t',)
            def compute_r(self): return (nm, self.a.r.v, self.b.r.v, self.t, self.pa)
            def compute_dr_wrt(self, wrt): return None
            @m.depends_on('a')
            def pa(self): return ('pa', self.a.r.v)
        K.__name__ = K.__qualname__ = nm; K.__module__ = 't_graph_heap'; setattr(mod, nm, K)
        return K
    out = mk('K1'), mk('K2')
    setattr(m, '__t_graph_cls', out)
    return out

def ref(n, m, sub=None, stop=None):
    """the value of the expression built afresh, with replacements sub"""
    if sub:
        for o, v in sub:
            if n is o: return v
    if stop is not None and n is stop: return ref(n, m)
    if type(n) is m.Ch: return n.x
    a, b = ref(n.a, m, sub, stop), ref(n.b, m, sub, stop)
    t = n.t
    return (type(n).__name__, a, b, t, ('pa', a))

def ops_below(n, m, out=None):
    out = [] if out is None else out
    if any(n is x for x in out): return out
    out.append(n)
    if type(n) is not m.Ch:
        for k in (n.a, n.b): ops_below(k, m, out)
    return out
def has(n, x, m): return any(y is x for y in ops_below(n, m))

def heap(m, kinds=False, nmax=3):
    c = ctx(); K1, K2 = cls_for(m)
    nodes = [leaf(m, 'x0'), leaf(m, 'y0')]
    n = 1 + c.choose(nmax)
    for i in range(n):
        k = len(nodes)
        if n == 3 and i == 1: a = nodes[2]; b = nodes[c.choose(k)]
        else: a = nodes[c.choose(k)]; b = nodes[c.choose(k)]
        nodes.append(K1(a=a, b=b, t='t'))
    return nodes

def evaluate_some(ops):
    skip = ctx().choose(2)
    for o in (ops if not skip else ops[:-1]): o.r

def later_ok(m, f, nodes, ops, want_extra=''):
    """links are right and every later change of a variable reaches every value"""
    c = ctx()
    c.prove('links between inputs and their users are right' + want_extra, t_cache.links_ok(nodes, m), f)
    for x in [n for n in nodes if type(n) is m.Ch]:
        x.x = ('later', x.x)
        for o in ops: c.prove('later changes of variables reach every value' + want_extra, o.r.v == ref(o, m), f)

# ------------------------------------------------------------------ replace
def e_replace_node(plain):
    def run():
        m = mods(); c = ctx(); f = 'ch.Ch.replace'
        log = []
        class Kid(m.Ch):
            dterms = ('q',); terms = ()
            def compute_r(self): raise Unsupported('evaluation during replacement')
            def replace(self, old, new): log.append((self, old, new)); return new
            def __getattribute__(self, k):
                if k in ('terms', 'q', '__dict__', 'tree_iterator', 'loop_children_do') and not quiet[0]: touched.append(self)
                return object.__getattribute__(self, k)
        quiet = [True]; touched = []
        def kid():
            o = object.__new__(Kid)
            object.__getattribute__(o, '__dict__').update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': 'old', 'rview': 'old', 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False)
            return o
        K = type('K', (m.Ch,), dict(dterms=('a', 'b', 'c'), terms=('t', 'u'), compute_r=lambda self: None))
        K.setup_terms()
        if plain: old, new = ['old argument'], ['new argument']
        else: old, new = kid(), kid()
        o1, o2 = kid(), kid()
        s = object.__new__(K); names = ['a', 'b', 'c', 't', 'u']
        s.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': 'old', 'rview': 'old', 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False)
        before = {}
        for k in names:
            if k == 't': opts = [None, 'plain', old] + ([] if plain else [o1])
            elif k == 'u': opts = ['plain', old]
            else: opts = [None, o1, o2] + ([] if plain else [old, new])
            v = opts[c.choose(len(opts))]
            if v is None: continue
            before[k] = v; s.__dict__[k] = v
            if k not in 'tu': v._parents.setdefault(s, {'varnames': set()})['varnames'].add(k)
        s2 = object.__new__(K); s2.__dict__.update(s.__dict__)
        quiet[0] = False
        r = m.Ch.replace(s, old, new)
        quiet[0] = True
        called = [x for x, o, w in log]
        kids = []
        for k, v in before.items():
            if isinstance(v, Kid) and v is not old and v is not new and not any(v is q for q in kids): kids.append(v)
        for k in kids:
            asked = any(k is x for x in called)
            if not asked and any(k is x for x in touched): raise Unsupported('replacement does not proceed input by input')
            c.prove('every expression among the inputs and arguments is asked to replace', asked, f)
        c.prove('the replacement is passed on unchanged', all(o is old and w is new for _, o, w in log), f)
        c.prove('only inputs of the expression are asked', all(any(x is k for k in kids) or x is old for x in called), f)
        for k in names:
            if k not in before: c.prove('attributes that are not set stay so', k not in s.__dict__, f); continue
            want = new if before[k] is old else before[k]
            c.prove('exactly the occurrences of the old object are replaced', s.__dict__.get(k) is want, f)
        lk = lambda o: o._parents.get(s, {'varnames': set()})['varnames']
        for o in ([o1, o2] if plain else [o1, o2, old, new]):
            c.prove('the object is registered with exactly its inputs, under their names', lk(o) == {k for k in ('a', 'b', 'c') if s.__dict__.get(k) is o} and (s in o._parents) == bool(lk(o)), f)
        hit = {k for k in before if before[k] is old}
        c.prove('the changed names are recorded', hit <= set(s._dirty_vars), f)
        if hit: c.prove('a remembered value is dropped', s._cache['r'] is None, f); c.cover('hit')
        else: c.cover('miss')
        c.prove('the replacement is returned', r is new, f)
    return run

def e_replace_mixed():
    m = mods(); c = ctx(); f = 'ch.Ch.replace'
    K1, K2 = cls_for(m); x, y = leaf(m, 'x0'), leaf(m, 'y0')
    n = K1(a=x, b=y, t='t')
    for old, new in ((x, 'plain'), ('t', x)):
        try: n.replace(old, new); ok = False
        except core.Unsupported: raise
        except Exception: ok = True
        c.prove('an object is not replaced by a plain value nor the reverse', ok and n.a is x and n.b is y and n.t == 't', f)
    c.cover('done')

def e_replace_heap(kind):
    def run():
        m = mods(); c = ctx(); f = 'ch.Ch.replace'
        K1, K2 = cls_for(m)
        nodes = heap(m); ops = nodes[2:]; evaluate_some(ops); root = ops[-1]
        old = nodes[c.choose(len(nodes) - 1)]
        if kind == 'leaf': new = leaf(m, 'z')
        elif kind == 'other':
            cand = [n for n in nodes[:-1] if n is not old and not has(n, old, m)]
            if not cand: raise Infeasible()
            new = cand[c.choose(len(cand))]
        elif kind == 'around': new = K2(a=old, b=leaf(m, 'z'), t='u') if c.choose(2) else K2(a=K2(a=leaf(m, 'z'), b=old, t='v'), b=old, t='u')
        elif kind == 'fresh': new = K2(a=leaf(m, 'z'), b=nodes[c.choose(2)], t='u')
        elif kind == 'argument':
            tt = 'argument %d' % len(nodes)
            for o in ops:
                if c.choose(2): o.t = tt
            old, new = tt, 'new argument'
        if kind != 'argument' and has(new, root, m): raise Infeasible()
        if kind == 'fresh' and has(new, old, m): pass
        nv = new if kind == 'argument' else ref(new, m)
        def want(n):
            if kind == 'argument':
                if type(n) is m.Ch: return n.x
                a = want(n.a); return (type(n).__name__, a, want(n.b), new if n.t is old else n.t, ('pa', a))
            return ref(n, m, [(old, nv)], stop=new)
        w = want(root); inside = ops_below(root, m)
        outside = [(o, ref(o, m)) for o in ops if not has(root, o, m) and not any(has(o, i, m) and has(i, old, m) and type(i) is not m.Ch for i in inside)] if kind != 'argument' else []
        ret = root.replace(old, new)
        c.prove('the expression equals the one built with the replacement', root.r.v == w and ref(root, m) == w, f)
        for o, v in outside: c.prove('expressions that share nothing changed keep their value', o.r.v == v, f)
        allnodes = list(nodes)
        for n in ops_below(root, m) + (ops_below(new, m) if kind != 'argument' else []):
            if not any(n is x for x in allnodes): allnodes.append(n)
        later_ok(m, f, allnodes, [n for n in allnodes if type(n) is not m.Ch])
        c.cover('done')
    return run

# ------------------------------------------------------------------ semantic ids and redundancy
def e_sid():
    m = mods(); c = ctx(); f = 'ch.Ch.sid'
    K = [type('S%d' % i, (m.Ch,), dict(dterms=('a', 'b'), terms=('t',), compute_r=lambda self: None)) for i in (1, 2)]
    for k in K: k.setup_terms()
    p, q = m.Ch('same'), m.Ch('same')
    t1, t2 = ['arg'], ['other arg']
    ns = []
    for i in range(2):
        o = object.__new__(K[c.choose(2)]); o.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': None, 'drs': {}}, _depends_on_deps={})
        for k, opts in (('a', (None, p, q)), ('b', (None, p, q)), ('t', (None, t1, t2))):
            v = opts[c.choose(3)]
            if v is not None: o.__dict__[k] = v
        ns.append(o)
    n1, n2 = ns
    same = type(n1) is type(n2) and all(n1.__dict__.get(k, 0) is n2.__dict__.get(k, 0) for k in ('a', 'b', 't'))
    eq = n1.sid == n2.sid
    c.prove('objects with equal ids have the same class and the same inputs and arguments', same or not eq, f)
    c.prove('an id can be a key', hash(n1.sid) == hash(n1.sid), f)
    c.cover('same' if same else 'different')

def e_redundancy_node():
    """one object; its inputs' remove_redundancy by contract; cache in any state that maps ids to objects of equal meaning"""
    m = mods(); c = ctx(); f = 'ch.Ch.remove_redundancy'
    log = []
    class Kid(m.Ch):
        dterms = ('q',); terms = ()
        def compute_r(self): raise Unsupported('evaluation of an input')
        @property
        def sid(self): return self.__dict__['mysid']
        def remove_redundancy(self, cache=None, iterate=True):
            log.append((self, cache, iterate))
            if iterate or cache is None: raise Unsupported('an input is asked to start afresh')
            if self.__dict__['ch_'] is None:
                if rounds[0]: return False
                self.__dict__['ch_'] = c.choose(2) == 1; return self.__dict__['ch_']
            return False
    rounds = [0]
    def kid(sid):
        o = object.__new__(Kid)
        o.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': 'old', 'rview': 'old', 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False, mysid=sid, ch_=None)
        return o
    K = type('K', (m.Ch,), dict(dterms=('a', 'b', 'c'), terms=('t',), compute_r=lambda self: 'v')); K.setup_terms()
    k1, k1b, k2 = kid('S1'), kid('S1'), kid('S2')
    v1 = m.Ch('same'); v2 = m.Ch('same'); v2.__dict__['x'] = v1.__dict__['x']
    s = object.__new__(K)
    s.__dict__.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': 'old', 'rview': 'old', 'drs': weakref.WeakKeyDictionary()}, _depends_on_deps={}, _make_dense=False, _make_sparse=False, t='arg')
    before = {}
    for k in ('a', 'b', 'c'):
        j = c.choose(6 if k == 'c' else 5)
        if j == 5: continue         # an input that was not given
        v = (k1, k1b, k2, v1, v2)[j]; before[k] = v; s.__dict__[k] = v
        v._parents.setdefault(s, {'varnames': set()})['varnames'].add(k)
    top = c.choose(2) == 0
    cache = None; rep = {}
    if not top:
        cache = {}
        for sid, own in (('S1', k1), ('S2', k2)):
            j = c.choose(3)
            if j: rep[sid] = cache[sid] = own if j == 1 else kid(sid)
    given = dict(cache) if cache is not None else {}
    r = m.Ch.remove_redundancy(s) if top else m.Ch.remove_redundancy(s, cache, False)
    abc = [k for k in 'abc' if k in before]
    c.prove('nothing is invented', ('c' in s.__dict__) == ('c' in before), f)
    for k in abc:
        was, now = before[k], s.__dict__[k]
        if type(was) is m.Ch: c.prove('variables are never merged, even with equal contents', now is was, f); continue
        c.prove('an input is only replaced by an object with the same id', type(now) is Kid and now.__dict__['mysid'] == was.__dict__['mysid'], f)
        c.prove('inputs with the same id become one object', all(s.__dict__[j] is now for j in abc if type(s.__dict__[j]) is Kid and s.__dict__[j].__dict__['mysid'] == now.__dict__['mysid']), f)
    c.prove('arguments are kept', s.__dict__['t'] == 'arg', f)
    for o in [v1, v2, k1, k1b, k2] + list(rep.values()):
        names = {k for k in abc if s.__dict__[k] is o}
        c.prove('the object is registered with exactly its inputs, under their names', (o._parents[s]['varnames'] if s in o._parents else set()) == names, f)
    if not top:
        c.prove('what was known stays known', all(cache.get(k) is v for k, v in given.items()), f)
        c.prove('only inputs are added, under their own id', all(v is s or (any(v is w for w in list(before.values()) + list(given.values())) and v.__dict__.get('mysid') == k) for k, v in cache.items()), f)
        changed = any(s.__dict__[k] is not before[k] for k in abc) or any(x.__dict__['ch_'] for x, _, _ in log)
        c.prove('a change is reported to the caller', bool(r) or not changed, f)
        c.prove('what the inputs are told is the same record', all(ch is cache for _, ch, _ in log), f)
    else: c.prove('nothing is left to do for the caller', not r, f)
    if any(s.__dict__[k] is not before[k] for k in abc): c.cover('merged')
    else: c.cover('kept')

def e_redundancy_heap():
    m = mods(); c = ctx(); f = 'ch.Ch.remove_redundancy / sid'
    K1, K2 = cls_for(m)
    v = 'shared content'
    x, y = leaf(m, v), leaf(m, v); y.__dict__['x'] = x.__dict__['x']
    nodes = [x, y]
    n = 2 + c.choose(3)
    for i in range(n):
        k = len(nodes); last = i == n - 1
        if n == 4 and not last and i:   # moderate number of shapes: middle nodes are over the leaves and the first node
            a = nodes[(0, 2, 1)[c.choose(3)]]; b = nodes[(0, 2)[c.choose(2)]]
        elif last: a = nodes[-1]; b = nodes[-2] if n == 4 else nodes[c.choose(k)]
        else: a = nodes[c.choose(min(k, 3))]; b = nodes[c.choose(min(k, 3))]
        nodes.append((K1, K2)[c.choose(2) if i == 1 else 0](a=a, b=b, t=('t', 'u')[c.choose(2)] if i == 1 else 't'))
    ops = nodes[2:]; evaluate_some(ops); root = ops[-1]
    want = [(o, ref(o, m)) for o in ops]
    root.remove_redundancy()
    for o, w in want: c.prove('values are kept', o.r.v == w and ref(o, m) == w, f)
    live = ops_below(root, m)
    sids = {}
    for o in live:
        if type(o) is not m.Ch: sids.setdefault(o.sid, []).append(o)
    c.prove('no two equal operations remain', all(len(v) == 1 for v in sids.values()), f)
    # distinct variables stay distinct
    x.x = 'only x'
    for o, w in want: c.prove('a variable is not merged with another', o.r.v == ref(o, m), f)
    later_ok(m, f, nodes, ops)
    c.cover('done')

def e_redundancy_vars():
    """each occurrence of a variable stays an occurrence of the same variable"""
    m = mods(); c = ctx(); f = 'ch.Ch.remove_redundancy'
    K1, K2 = cls_for(m)
    x, y = leaf(m, 'v'), leaf(m, 'v'); y.__dict__['x'] = x.__dict__['x']
    V = [x, y]
    p = K1(a=V[c.choose(2)], b=V[c.choose(2)], t='t'); q = K1(a=V[c.choose(2)], b=V[c.choose(2)], t='t')
    pick = (p, q, x, y)
    u = K1(a=pick[c.choose(4)], b=pick[c.choose(4)], t='t'); w = K1(a=pick[c.choose(4)], b=pick[c.choose(4)], t='t')
    root = K2(a=u, b=w, t='t')
    def shape(n): return 'x' if n is x else 'y' if n is y else (type(n).__name__, shape(n.a), shape(n.b), n.t)
    sh = shape(root)
    if c.choose(2): root.r
    root.remove_redundancy()
    c.prove('the expression has the same structure over the same variables', shape(root) == sh, f)
    c.prove('equal operations are one', (root.a is root.b) == (sh[1] == sh[2]), f)
    nodes = ops_below(root, m)
    c.prove('links between inputs and their users are right', all(p in getattr(p, k)._parents and k in getattr(p, k)._parents[p]['varnames'] for p in nodes if type(p) is not m.Ch for k in 'ab'), f)
    for z in V:
        z.x = ('later', id(z))
        for o in nodes: c.prove('later changes of variables reach every value', o.r.v == ref(o, m), f)
    c.cover('done')

# ------------------------------------------------------------------ copies and pickles
def e_getstate():
    m = mods(); c = ctx(); f = 'ch.Ch.__getstate__'
    K1, K2 = cls_for(m)
    x, y = leaf(m, 'x0'), leaf(m, 'y0')
    n = K1(a=x, b=(x, y)[c.choose(2)], t=['arg'])
    if c.choose(2): n.extra = 'user attribute'
    if c.choose(2): n.r
    if c.choose(2): n._cache['drs'][x] = 'jacobian'
    user = K2(a=n, b=y, t='t')
    before = dict(n.__dict__); cache = n._cache; cb = {k: (dict(v) if hasattr(v, 'items') else v) for k, v in cache.items()}
    st = n.__getstate__()
    c.prove('the object is unchanged', n.__dict__ == before and n._cache is cache and all(before[k] is n.__dict__[k] for k in before) and {k: (dict(v) if hasattr(v, 'items') else v) for k, v in cache.items()} == cb and list(n._parents.keys()) == [user], f)
    c.prove('the state is not the object\'s own dictionary', st is not n.__dict__, f)
    c.prove('the state carries inputs, arguments and attributes of the user', all(k in st and st[k] is n.__dict__[k] for k in ('a', 'b', 't', 'extra') if k in n.__dict__), f)
    c.prove('settings are kept', all(st.get(k) == n.__dict__[k] for k in ('_make_dense', '_make_sparse')), f)
    c.prove('users and remembered results are not part of the state', '_parents' not in st and '_cache' not in st, f)
    c.cover('done')

def e_state_pending():
    """changes the object has not been told of yet are not forgotten by a copy, and stay pending for the original"""
    m = mods(); c = ctx(); f = 'ch.Ch.__getstate__ / __setstate__'
    K1, K2 = cls_for(m)
    x, y = leaf(m, 'x0'), leaf(m, 'y0')
    n = K1(a=x, b=y, t=['arg']); n.r
    pend = {k for k in 'abt' if c.choose(2)}
    for k in pend:
        if k == 't': n.t = ['new argument']
        else: (x if k == 'a' else y).x = 'new'
    st = n.__getstate__(); z = object.__new__(K1); z.__setstate__(dict(st))
    c.prove('changes not yet told remain to be told to the original', pend <= set(n._dirty_vars), f)
    c.prove('changes not yet told are told to the copy', pend <= set(z._dirty_vars), f)
    z.r
    c.prove('once they are used, nothing remains to be told to the copy', not z._dirty_vars, f)
    c.prove('the original does not notice', pend <= set(n._dirty_vars), f)
    c.cover('pending' if pend else 'none')

def e_getstate_lambda():
    """function-style expressions: the function is not part of the state, but stays with the object"""
    m = mods(); c = ctx(); f = 'ch.ChLambda.__getstate__'
    K1, K2 = cls_for(m)
    fn = lambda p, q: K1(a=p, b=q, t='t')
    n = m.ChLambda(fn); n.p = leaf(m, 'x0'); n.q = leaf(m, 'y0')
    if c.choose(2): n.extra = 'user attribute'
    v0 = n.r.v if c.choose(2) else None
    keys = {k: v for k, v in n.__dict__.items() if k not in ('_cache', '_itr')}
    st = n.__getstate__()
    c.prove('the object is unchanged', all(n.__dict__.get(k) is v for k, v in keys.items()) and set(keys) == set(n.__dict__) - {'_cache', '_itr'}, f)
    c.prove('the state carries no function', not any(callable(v) and type(v) is type(fn) for v in st.values()), f)
    c.prove('the state carries arguments and attributes of the user', all(st.get(k) is n.__dict__[k] for k in ('p', 'q', 'args', '_result', 'extra') if k in n.__dict__), f)
    c.prove('users and remembered results are not part of the state', '_parents' not in st and '_cache' not in st, f)
    if v0 is not None: c.prove('the value is kept', n.r.v == v0, f)
    c.cover('done')

def e_setstate():
    """a new object from a state (of which nothing is shared with the original)"""
    m = mods(); c = ctx(); f = 'ch.Ch.__setstate__'
    K1, K2 = cls_for(m)
    x, y = leaf(m, 'x0'), leaf(m, 'y0')
    other = K2(a=x, b=y, t='t')
    n = object.__new__(K1)
    pend = c.choose(2); ood = c.choose(2) == 1
    d = dict(_dirty_vars=set(['t']) if pend else set(), _itr=None, _make_dense=False, _make_sparse=True, _depends_on_deps={'pa': {'deps': {'a'}, 'value': 'stale', 'out_of_date': ood}}, t=['arg'], extra=1)
    has_a, has_b = c.choose(3), c.choose(3)
    if has_a: d['a'] = (None, x, y)[has_a]
    if has_b: d['b'] = (None, x, y)[has_b]
    own = c.choose(3)      # an input of the object alone
    if own: d['dterms'] = ['a', 'b', 'own']; d['own'] = (None, x, y)[own]
    d0 = dict(d)
    n.__setstate__(d)
    for k in ('a', 'b', 't', 'own', 'dterms', 'extra', '_make_dense', '_make_sparse'):
        if k in d0: c.prove('inputs, arguments, attributes and settings are restored', n.__dict__.get(k) is d0[k], f)
        else: c.prove('nothing is invented', k not in n.__dict__, f)
    for z in (x, y):
        names = {k for k in ('a', 'b', 'own') if d0.get(k) is z}
        c.prove('the object is registered with its inputs, under their names', (z._parents[n]['varnames'] if n in z._parents else set()) == names, f)
        c.prove('other users of the inputs are kept', z._parents[other]['varnames'] == ({'a'} if z is x else {'b'}), f)
    c.prove('nothing is remembered, nobody uses the object yet', n._cache['r'] is None and len(n._cache['drs']) == 0 and len(n._parents) == 0, f)
    pa = n._depends_on_deps['pa']
    c.prove('dependent properties of inputs are recomputed before use', not has_a or pa['out_of_date'] is True, f)
    if has_a and has_b:
        c.prove('the value is that of the expression built afresh', n.r.v == ref(n, m), f)
        x.x = 'new'; c.prove('the object reacts to changes of its variables', n.r.v == ref(n, m), f)
        c.cover('complete')
    else: c.cover('incomplete')

def e_setstate_leaf():
    m = mods(); c = ctx(); f = 'ch.Ch.__getstate__ / __setstate__'
    x = leaf(m, ['content']); K1, K2 = cls_for(m); n = K1(a=x, b=x, t='t')
    if c.choose(2): n.r
    if c.choose(2): x.label = 'name'
    st = dict(x.__getstate__())
    c.prove('the variable is unchanged', n in x._parents and x.__dict__['x'] == ['content'], f)
    z = object.__new__(m.Ch); z.__setstate__(st)
    c.prove('the content is restored', z.__dict__['x'] == ['content'] and z.__dict__.get('label') == x.__dict__.get('label'), f)
    c.prove('the variable is used by nobody yet', len(z._parents) == 0 and z._cache['r'] is None, f)
    w = K1(a=z, b=z, t='t')
    a = w.r.v; z.x = 'other'
    c.prove('assigning reaches the users of the new variable only', w.r.v == ref(w, m) and a != w.r.v and n.r.v == ref(n, m), f)
    c.cover('done')

def e_copy_heap(way):
    def run():
        import copy as cp, pickle
        m = mods(); c = ctx(); f = 'ch.Ch.copy / __getstate__ / __setstate__'
        nodes = heap(m); ops = nodes[2:]; evaluate_some(ops)
        if c.choose(2): nodes[0].x = 'x1'      # a pending change
        root = ops[-1]
        before = [(o, dict((k, v) for k, v in o.__dict__.items() if k in ('a', 'b', 't', 'x'))) for o in nodes]
        names = [frozenset(o._dirty_vars) for o in ops]; users = [len(o._parents) for o in nodes]
        try:
            if way == 'copy': new = root.copy()
            elif way == 'pickle': new = pickle.loads(pickle.dumps(root, c.choose(6)))
            elif way == 'deepcopy': new = cp.deepcopy(root)
        except core.Unsupported: raise
        except Exception as e: c.prove('an expression can be copied', False, f); return
        c.prove('the original is unchanged', all(all(o.__dict__[k] is v for k, v in d.items()) for o, d in before) and [frozenset(o._dirty_vars) for o in ops] == names and [len(o._parents) for o in nodes] == users, f)
        orig, cop = ops_below(root, m), ops_below(new, m)
        c.prove('the copy has the same structure', len(orig) == len(cop) and [type(o) for o in orig] == [type(o) for o in cop], f)
        c.prove('nothing is shared', not any(a is b for a in orig for b in cop), f)
        c.prove('the copy has the same value', ref(new, m) == ref(root, m) and new.r.v == ref(root, m), f)
        c.prove('links in the copy are right', t_cache.links_ok(cop, m), f)
        c.prove('links in the original are right', t_cache.links_ok(nodes, m), f)
        for side, rest in ((cop, orig), (orig, cop)):
            vals = [o.r.v for o in rest]
            for z in [n for n in side if type(n) is m.Ch]:
                z.x = ('changed', z.x)
                for o in side: c.prove('changes reach every value on their own side', o.r.v == ref(o, m), f)
            c.prove('changes reach nothing on the other side', [o.r.v for o in rest] == vals and [ref(o, m) for o in rest] == vals, f)
        c.cover('done')
    return run

# ------------------------------------------------------------------ handles, function-style expressions, groups
class Eye(object):
    def __init__(self, n, k): self.n, self.k = n, k
def with_eye(m, fn):
    old = m.sp.__dict__.get('eye'); m.sp.eye = lambda a, b=None, *r, **k: Eye(a, a if b is None else b)
    old2 = m.sp.__dict__.get('identity'); m.sp.identity = lambda a, *r, **k: Eye(a, a)
    try: return fn()
    finally:
        if old is None: m.sp.__dict__.pop('eye', None)
        else: m.sp.eye = old
        if old2 is None: m.sp.__dict__.pop('identity', None)
        else: m.sp.identity = old2
def ident(j, n):
    """j is the identity matrix of size n"""
    if isinstance(j, Eye):
        e = [v.e if isinstance(v, SymInt) else z3.IntVal(v) for v in (j.n, j.k)]
        return z3.And(e[0] == n.e, e[1] == n.e)
    if isinstance(j, (int, float)) and not isinstance(j, bool): return z3.And(n.e == 1, z3.BoolVal(j == 1))
    raise Unsupported('derivative %r' % (j,))

def e_identity(which):
    def run():
        m = mods(); c = ctx(); f = 'ch.%s' % which
        n = SymInt(z3.Int('n')); c.assume(n.e >= 1)
        class Kid(m.Ch):
            size = property(lambda self: n); shape = property(lambda self: (n,))
            r = property(lambda self: 'value of %s' % self.__dict__['nm'])
            def dr_wrt(self, w, *a, **k): raise Unsupported('derivative of an input')
            def __len__(self): raise Unsupported('len')
        def kid(nm):
            o = object.__new__(Kid); o.__dict__['nm'] = nm; return o
        x, y = kid('x'), kid('y')
        cls = getattr(m, which); s = object.__new__(cls)
        s.__dict__.update(_dirty_vars=set(), _itr=None, _parents={}, _cache={'r': None, 'drs': {}}, _depends_on_deps={})
        key = 'x' if which == 'ChHandle' else '_result'
        s.__dict__[key] = x
        if which == 'ChLambda': s.__dict__['args'] = {'q': None}; s.__dict__['q'] = y
        c.prove('the value is the value of what it stands for', s.compute_r() == 'value of x', f + '.compute_r')
        j = with_eye(m, lambda: s.compute_dr_wrt(x))
        c.prove('the derivative with respect to it is the identity', j is not None and ident(j, n), f + '.compute_dr_wrt')
        c.prove('no derivative with respect to anything else', with_eye(m, lambda: s.compute_dr_wrt(y)) is None and with_eye(m, lambda: s.compute_dr_wrt(s)) is None, f + '.compute_dr_wrt')
        c.cover('done')
    return run

def e_onchanged(which):
    """arguments are passed to their handles: any set of changed names"""
    def run():
        m = mods(); c = ctx(); f = 'ch.%s.on_changed' % which
        cls = getattr(m, which); s = object.__new__(cls)
        class H(object):
            def __init__(self, x): self.__dict__['sets'] = 0; self.__dict__['x'] = x
            def __setattr__(self, k, v): self.__dict__[k] = v; self.__dict__['sets'] += 1
        vals = {k: m.Ch('value ' + k) for k in 'pqz'}
        s.__dict__.update(_dirty_vars=set(), _itr=None, _parents={}, _cache={'r': None, 'drs': {}}, _depends_on_deps={})
        hs = {}; stale = {}
        for k in 'pq':
            how = c.choose(3); stale[k] = how > 0
            hs[k] = H((vals[k], m.Ch('former'), m.Ch('value ' + k))[how]); s.__dict__[k] = vals[k]      # another object, with another or the same value
        s.__dict__['args'] = hs; s.__dict__['z'] = vals['z']
        names = {k for k in ('p', 'q', 'z', '_result', 'args') if c.choose(2)}
        given = frozenset(names)
        s.on_changed(names)
        for k in 'pq':
            if k in given: c.prove('a changed argument is passed to its handle', hs[k].x is vals[k], f)
            else: c.prove('handles hold the argument or what they held', hs[k].x is vals[k] or (stale[k] and not hs[k].sets), f)
        c.prove('arguments are unchanged', all(s.__dict__[k] is vals[k] for k in 'pqz') and s.__dict__['args'] is hs and set(hs) == {'p', 'q'}, f)
        c.cover('some' if given & {'p', 'q'} else 'none')
    return run

def mklambda(m, body, initial=None):
    return m.Ch(body, initial) if initial is not None else m.Ch(body)

def e_lambda_init():
    m = mods(); c = ctx(); f = 'ch.ChLambda.__init__'
    K1, K2 = cls_for(m)
    K1.setup_terms(); K2.setup_terms()
    use = [k for k in 'pqw' if c.choose(2)]
    seen = {}
    def body(p, q, w):
        seen.update(p=p, q=q, w=w)
        out = m.Ch('constant')
        for k in use: out = K1(a=dict(p=p, q=q, w=w)[k], b=out, t='t')
        if not use: out = K2(a=out, b=out, t='t')
        return out
    cl = (list(m.ChLambda.terms), list(m.ChLambda.dterms), list(m.ChLambda.term_order), list(m.Ch.terms), list(m.Ch.dterms))
    ini = {k: (None, m.Ch('initial ' + k), 'plain ' + k)[j] for k in 'pq' for j in [c.choose(3)] if j}
    if c.choose(2): ini['unknown'] = m.Ch('u')
    given = dict(ini)
    try: L = mklambda(m, body, ini) if ini else mklambda(m, body)
    except core.Unsupported: raise
    c.prove('a function gives a function-style expression', isinstance(L, m.ChLambda), f)
    c.prove('the class is not altered', (list(m.ChLambda.terms), list(m.ChLambda.dterms), list(m.ChLambda.term_order), list(m.Ch.terms), list(m.Ch.dterms)) == cl, f)
    for k in 'pqw':
        c.prove('each argument is an attribute, an input if the value depends on it and else an argument', k in L.__dict__ and (k in L.dterms) == (k in use) and (k in L.terms) == (k not in use), f)
        c.prove('each handle holds its argument', seen[k].x is L.__dict__[k], f)
        if k in given: c.prove('initial arguments are used', L.__dict__[k] is given[k] or isinstance(given[k], str) and L.__dict__[k].x == given[k], f)
    c.prove('distinct arguments are distinct objects', len({id(L.__dict__[k]) for k in 'pqw'}) == 3 and len({id(seen[k]) for k in 'pqw'}) == 3, f)
    c.prove('initial arguments of the caller are unchanged', ini == given, f)
    for order in itertools.product(range(2), repeat=1):
        for k in 'pqw':
            new = m.Ch('new ' + k); setattr(L, k, new)
    vals = {k: 'new ' + k for k in 'pqw'}
    want = 'constant'
    for k in use: want = ('K1', vals[k], want, 't', ('pa', vals[k]))
    if not use: want = ('K2', want, want, 't', ('pa', want))
    c.prove('the value is that of the body applied to the arguments', L.r.v == want, f)
    c.cover('done')

def bodies(m):
    K1, K2 = cls_for(m)
    return [('K1(p, q)', lambda p, q: K1(a=p, b=q, t='t')), ('K1(q, K2(p, q))', lambda p, q: K1(a=q, b=K2(a=p, b=q, t='u'), t='t')), ('K1(p, p)', lambda p, q: K1(a=p, b=p, t='t'))]

def expand(n, m):
    """value of the expression written out"""
    if type(n) is m.Ch: return n.x
    if isinstance(n, m.ChHandle): return expand(n.x, m)
    a = expand(n.a, m); return (type(n).__name__, a, expand(n.b, m), n.t, ('pa', a))

def e_lambda_heap():
    """two objects from the same function, any assignments in any order, interleaved with evaluations"""
    m = mods(); c = ctx(); f = 'ch.ChLambda'
    K1, K2 = cls_for(m)
    bi = c.choose(3)
    L1 = m.Ch(bodies(m)[bi][1]); L2 = m.Ch(bodies(m)[bi][1])
    x, y = m.Ch('x0'), m.Ch('y0'); e = K2(a=x, b=y, t='v'); pool = [x, y, e]
    state = {id(L1): {}, id(L2): {}}
    def val(n): return n.x if type(n) is m.Ch else ref(n, m)
    def want(L):
        p, q = (state[id(L)].get(k) for k in 'pq')
        if p is None: p = L.__dict__['p']
        if q is None: q = L.__dict__['q']
        p, q = val(p), val(q)
        if bi == 0: return ('K1', p, q, 't', ('pa', p))
        if bi == 2: return ('K1', p, p, 't', ('pa', p))
        return ('K1', q, ('K2', p, q, 'u', ('pa', p)), 't', ('pa', q))
    nsteps = 2 + c.choose(2)
    for step in range(nsteps):
        L = L1 if step == 0 else (L1, L2)[c.choose(2)]
        k = 'pq'[c.choose(2)]; o = pool[c.choose(3 if nsteps == 2 else 2)]
        setattr(L, k, o); state[id(L)][k] = o
        if c.choose(2): c.prove('the value is that of the body applied to the arguments', L1.r.v == want(L1), f)
    for L in (L1, L2): c.prove('the value is that of the body applied to the arguments', L.r.v == want(L), f)
    for z in (x, y):
        z.x = ('later', z.x)
        for L in (L1, L2): c.prove('later changes below the arguments reach the value', L.r.v == want(L), f)
    c.cover('done')

def e_group_heap():
    m = mods(); c = ctx(); f = 'ch.ChGroup'
    K1, K2 = cls_for(m)
    def mk(nm, depth=0):
        x, y = m.Ch('x of ' + nm), m.Ch('y of ' + nm)
        a = (x, K2(a=x, b=y, t='v'))[depth]; inner = K1(a=m.Ch(0), b=m.Ch(0), t='t')
        args = {'a': a, 'b': (y, a)[c.choose(2)]}
        given = dict(args)
        g = m.ChGroup(result=inner, args=args)
        c.prove('the arguments given are unchanged', args == given, f)
        return g, inner, x, y, dict(args)
    cl = (list(m.ChGroup.terms), list(m.ChGroup.dterms), list(m.ChGroup.term_order))
    g, inner, x, y, st = mk('1', c.choose(2)); g2, inner2, x2, y2, st2 = mk('2')
    c.prove('the class is not altered', (list(m.ChGroup.terms), list(m.ChGroup.dterms), list(m.ChGroup.term_order)) == cl, f)
    def val(n): return n.x if type(n) is m.Ch else ref(n, m)
    def want(s): a = val(s['a']); return ('K1', a, val(s['b']), 't', ('pa', a))
    c.prove('the value is that of the expression', g.r.v == want(st) and g2.r.v == want(st2), f)
    for step in range(2):
        k = 'ab'[c.choose(2)]; o = (m.Ch('new %d' % step), x, y2, m.Ch('x of 1'))[c.choose(4)]
        setattr(g, k, o); st[k] = o
        if c.choose(2): c.prove('the value is that of the expression', g.r.v == want(st), f)
    for z in (x, y, x2, y2):
        z.x = ('later', z.x)
        c.prove('changes below the arguments reach the value', g.r.v == want(st) and g2.r.v == want(st2), f)
    c.cover('done')

def e_group_dr():
    """Jacobians of a group: with respect to an argument, the sum over the handles it occupies; with respect to something below
    an argument, nothing (the chain rule adds it); otherwise whatever the grouped expression reports"""
    import matalg
    m = mods(); c = ctx(); f = 'ch.ChGroup.compute_dr_wrt'
    import t_chain, core as _c
    class M(object):
        def __init__(self, s): self.s = tuple(sorted(s))
        def __add__(self, o): return M(self.s + o.s)
        def __eq__(self, o): return isinstance(o, M) and self.s == o.s
        __hash__ = None
    tab = {}
    class Res(object):
        def dr_wrt(self, w, *a, **k):
            key = names[id(w)]
            if key not in tab: tab[key] = M([key]) if c.choose(2) == 0 else None
            return tab[key]
    class H(object):
        def __init__(self, x): self.x = x
        def is_dr_wrt(self, w): return w is self.x or names[id(w)] in below.get(names[id(self.x)], ())
    class X(object): pass
    X1, X2, W, Z = X(), X(), X(), X()
    objs = [X1, X2]
    hs = {}
    for k in 'pqr': hs[k] = H(objs[c.choose(2)])
    below = {'X1': ('W',)} if c.choose(2) else {}
    names = {id(X1): 'X1', id(X2): 'X2', id(W): 'W', id(Z): 'Z'}
    for k in hs: names[id(hs[k])] = 'h' + k
    s = object.__new__(m.ChGroup); s.__dict__.update(args=hs, _result=Res(), _dirty_vars=set(), _parents={}, _cache={'r': None, 'drs': {}}, _itr=None, _depends_on_deps={})
    w = (X1, X2, W, Z)[c.choose(4)]
    j = s.compute_dr_wrt(w)
    hh = [k for k in hs if hs[k].x is w]
    if hh:
        terms = [tab.get('h' + k, 'never asked') for k in hh]
        if 'never asked' in [t for t in terms if isinstance(t, str)]: raise Unsupported('a handle was not asked')
        keys = sorted('h' + k for k in hh if tab['h' + k] is not None)
        c.prove('with respect to an argument: the sum of the derivatives with respect to its handles', (j is None and not keys) or (isinstance(j, M) and list(j.s) == keys), f); c.cover('argument')
    elif any(hs[k].is_dr_wrt(w) for k in hs):
        c.prove('what lies below an argument is left to the chain rule', j is None, f); c.cover('below')
    else:
        nm = names[id(w)]
        if nm not in tab: raise Unsupported('the grouped expression was not asked')
        c.prove('with respect to anything else: the derivative of the expression', (j is None) == (tab[nm] is None) and (j is None or j == tab[nm]), f); c.cover('other')

# ------------------------------------------------------------------ lemmas
def e_lemmas():
    c = ctx(); f = 'lemma'
    Nd = z3.DeclareSort('Node'); V = z3.DeclareSort('Value')
    def lemma(name, hyps, goal):
        r, s, dt = z3_check(hyps + [z3.Not(goal)])
        ctx().obl.append(Obligation('lemma ' + name, f, 'proved' if r == 'unsat' else 'unknown', 'z3', dt, ''))
        if z3_check(hyps, 4000)[0] == 'unsat': raise Unsupported('vacuous lemma ' + name)
    Nm = z3.DeclareSort('Name'); Tup = z3.DeclareSort('Values'); i = z3.Const('i', Nm)
    old, new = z3.Consts('old new', Nd)
    get = z3.Function('get', Tup, Nm, V); A, B = z3.Consts('inputs_after inputs_wanted', Tup)
    inp, inp2 = z3.Function('input', Nm, Nd), z3.Function('input_after', Nm, Nd)      # of the object under consideration, by name
    F = z3.Function('operation', Tup, V); v2, want = z3.Function('value_after', Nd, V), z3.Function('wanted', Nd, V)
    ext = z3.Implies(z3.ForAll([i], get(A, i) == get(B, i)), A == B)
    base = [ext, z3.ForAll([i], get(A, i) == v2(inp2(i))), z3.ForAll([i], get(B, i) == want(inp(i)))]
    # replacement: induction step over the height; wanted = value of the expression with old replaced by new
    lemma('replacement: if every input has the wanted value, so has the object', base + [z3.ForAll([i], inp2(i) == z3.If(inp(i) == old, new, inp(i))), want(old) == v2(new),
          z3.ForAll([i], z3.Implies(inp(i) != old, v2(inp(i)) == want(inp(i))))], F(A) == F(B))
    # redundancy: an input is only replaced by an object of equal meaning
    lemma('redundancy: replacing inputs by objects of equal meaning keeps the meaning', base + [z3.ForAll([i], z3.Or(inp2(i) == inp(i), v2(inp2(i)) == v2(inp(i)))), z3.ForAll([i], v2(inp(i)) == want(inp(i)))], F(A) == F(B))
    # equal ids: same class and identical inputs give the same meaning
    c1, c2 = z3.Ints('class1 class2'); Fc = z3.Function('op_of_class', z3.IntSort(), Tup, V); j1, j2 = z3.Function('input1', Nm, Nd), z3.Function('input2', Nm, Nd)
    lemma('ids: same class and same inputs mean the same value', [ext, z3.ForAll([i], get(A, i) == v2(j1(i))), z3.ForAll([i], get(B, i) == v2(j2(i))), c1 == c2, z3.ForAll([i], j1(i) == j2(i))], Fc(c1, A) == Fc(c2, B))
    # function-style: at every evaluation a handle holds its argument
    S = z3.DeclareSort('Object'); held, arg, held2, arg2 = z3.Consts('held arg held2 arg2', S); d, d2 = z3.Bools('pending pending2')
    inv = z3.Or(held == arg, d); inv2 = z3.Or(held2 == arg2, d2)
    lemma('handles: an assignment records the name', [inv, held2 == held, d2], inv2)
    lemma('handles: an assignment to something else keeps the record', [inv, held2 == held, arg2 == arg, z3.Implies(d, d2)], inv2)
    lemma('handles: after the callback every handle holds its argument', [inv, arg2 == arg, z3.If(d, held2 == arg, z3.Or(held2 == held, held2 == arg))], held2 == arg2)
    c.cover('done')

def entries():
    A = ['expressions are finite and acyclic', 'WeakKeyDictionary behaves as a dictionary while its keys are alive', '__setattr__, clear_cache and r obey their contracts (C07, C09)']
    P = A + ['pickle rebuilds an isomorphic object graph from what __getstate__ returns, inputs before their users, passing it to __setstate__']
    b3 = 'two variables, up to three operations, all sharings; values are uninterpreted terms'
    E = [('replace, one object', e_replace_node(False), ('hit', 'miss'), dict(props=('C14',), functions=['ch.Ch.replace'], assumptions=A)),
         ('replace of an argument, one object', e_replace_node(True), ('hit', 'miss'), dict(props=('C14',), functions=['ch.Ch.replace'], assumptions=A)),
         ('replace, mixed kinds', e_replace_mixed, ('done',), dict(props=('C14',), functions=['ch.Ch.replace'], assumptions=A)),
         ('sid', e_sid, ('same', 'different'), dict(props=('C14',), functions=['ch.Ch.sid'], assumptions=A)),
         ('remove_redundancy, one object', e_redundancy_node, ('merged', 'kept'), dict(props=('C14',), functions=['ch.Ch.remove_redundancy'], assumptions=A, max_paths=20000)),
         ('small heaps, redundancy', e_redundancy_heap, ('done',), dict(props=('C14',), functions=['ch.Ch.remove_redundancy', 'ch.Ch.sid'], assumptions=A, bounded='two variables, up to four operations', max_paths=80000, weight=4)),
         ('small heaps, redundancy and variables', e_redundancy_vars, ('done',), dict(props=('C14',), functions=['ch.Ch.remove_redundancy', 'ch.Ch.sid'], assumptions=A, bounded='two variables, five operations of two levels', max_paths=80000, weight=4)),
         ('__getstate__', e_getstate, ('done',), dict(props=('C13',), functions=['ch.Ch.__getstate__'], assumptions=P)),
         ('__getstate__ of a function-style expression', e_getstate_lambda, ('done',), dict(props=('C13',), functions=['ch.ChLambda.__getstate__'], assumptions=P)),
         ('__setstate__', e_setstate, ('complete', 'incomplete'), dict(props=('C13',), functions=['ch.Ch.__setstate__'], assumptions=P)),
         ('pending changes of a copy', e_state_pending, ('pending', 'none'), dict(props=('C13',), functions=['ch.Ch.__getstate__', 'ch.Ch.__setstate__'], assumptions=P)),
         ('state of a variable', e_setstate_leaf, ('done',), dict(props=('C13',), functions=['ch.Ch.__getstate__', 'ch.Ch.__setstate__'], assumptions=P)),
         ('ChHandle', e_identity('ChHandle'), ('done',), dict(props=('C19',), functions=['ch.ChHandle.compute_r', 'ch.ChHandle.compute_dr_wrt'], assumptions=A)),
         ('ChLambda', e_identity('ChLambda'), ('done',), dict(props=('C19',), functions=['ch.ChLambda.compute_r', 'ch.ChLambda.compute_dr_wrt'], assumptions=A)),
         ('ChLambda.on_changed', e_onchanged('ChLambda'), ('some', 'none'), dict(props=('C19',), functions=['ch.ChLambda.on_changed'], assumptions=A)),
         ('ChGroup.on_changed', e_onchanged('ChGroup'), ('some', 'none'), dict(props=('C19',), functions=['ch.ChGroup.on_changed'], assumptions=A)),
         ('ChLambda.__init__', e_lambda_init, ('done',), dict(props=('C19',), functions=['ch.ChLambda.__init__', 'ch.Ch.add_dterm', 'ch.Ch.is_dr_wrt'], assumptions=A, bounded='functions of three arguments')),
         ('ChGroup.compute_dr_wrt', e_group_dr, ('argument', 'below', 'other'), dict(props=('C19',), functions=['ch.ChGroup.compute_dr_wrt'], assumptions=A)),
         ('small heaps, ChLambda', e_lambda_heap, ('done',), dict(props=('C19',), functions=['ch.ChLambda', 'ch.ChHandle'], assumptions=A, bounded='three functions of two arguments, three assignments', max_paths=80000, weight=4)),
         ('small heaps, ChGroup', e_group_heap, ('done',), dict(props=('C19',), functions=['ch.ChGroup', 'ch.ChHandle'], assumptions=A, bounded='two arguments, two assignments', max_paths=80000, weight=3)),
         ('lemmas', e_lemmas, ('done',), dict(props=('C13', 'C14', 'C19'), functions=[], assumptions=A))]
    for k in ('leaf', 'other', 'around', 'fresh', 'argument'):
        E.append(('small heaps, replace: %s' % k, e_replace_heap(k), ('done',), dict(props=('C14',), functions=['ch.Ch.replace'], assumptions=A, bounded=b3, max_paths=80000, weight=4)))
    for k in ('copy', 'pickle', 'deepcopy'):
        E.append(('small heaps, %s' % k, e_copy_heap(k), ('done',), dict(props=('C13',), functions=['ch.Ch.copy', 'ch_ops.copy', 'ch.Ch.__getstate__', 'ch.Ch.__setstate__'], assumptions=P, bounded=b3, max_paths=80000, weight=4)))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
