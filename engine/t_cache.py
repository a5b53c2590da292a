"""C07, C08, C09: invalidation of cached values, Jacobians and dependent properties, and change notification.
Expressions are heaps of nodes linked by _parents; the worklist loop of clear_cache is cut by an invariant, so the heap is of
any size.  Entries named "small heaps" run the real code natively on every small heap (bounded, independent of how it is written)."""
import z3, core, load, stubs, itertools, weakref, sys
from core import *

_M = []
def mods():
    if not _M:
        st = stubs.base_stubs(); np = st['numpy']
        class Val(object): pass
        np.asarray = lambda x, *a, **k: x
        np.atleast_1d = lambda x: Arr(x)
        # the entries of the inputs: equal exactly when the tokens that stand for them are
        def entries_of(x):
            if isinstance(x, Arr): return x.v
            if isinstance(x, m.Ch): return x.r.v
            if isinstance(x, (str, tuple, int, float)) : return x
            raise Unsupported('entries of %r' % type(x))
        np.array_equal = np.array_equiv = np.allclose = lambda a, b, *r, **k: a is b or entries_of(a) == entries_of(b)
        m = load.fresh_chumpy(st, ('chumpy.ch',))
        _M.append(m)
    return _M[0]

class Flags(object): writeable = True
class Arr(object):
    """an evaluated array: the value token it holds, and whether it may be written to"""
    def __init__(self, v, base=None): self.v = v.v if isinstance(v, Arr) else v; self.flags = Flags(); self.base = base
    def view(self): return Arr(self.v, self)
    def setflags(self, write=None, **k): self.flags.writeable = write
    def copy(self): return Arr(self.v)
    def __repr__(self): return 'Arr(%r)' % (self.v,)

class NameSet(load.SymIter):
    """a set of input names, as a union of unknown sets"""
    def __init__(self, toks): self.t = frozenset(toks)
    def union(self, *os):
        t = self.t
        for o in os: t = t | tok(o)
        return NameSet(t)
    def __or__(self, o): return self.union(o)
    def __ror__(self, o): return self.union(o)
    def intersection(self, o): return Inter(self, o)
    def __and__(self, o): return Inter(self, o)
    def isdisjoint(self, o): return Inter(self, o).count() == 0
    def copy(self): return NameSet(self.t)
    def __eq__(self, o): return isinstance(o, NameSet) and self.t == o.t
    def __hash__(self): return 3
    def __iter__(self): raise Unsupported('enumeration of an unknown set of names')
    def sym_loop(self, q): raise Unsupported('loop %s over an unknown set of names' % q)
    def update(self, *os):
        for o in os: self.t = self.t | tok(o)
    def __ior__(self, o): self.update(o); return self
    def __repr__(self): return 'NameSet(%s)' % sorted(self.t)
def tok(o):
    if isinstance(o, NameSet): return o.t
    if isinstance(o, (set, frozenset, list, tuple)) : return frozenset('name:' + x for x in o)
    raise Unsupported('names %r' % (o,))
class Inter(object):
    def __init__(self, a, b): self.a, self.b = a, b
    def count(self):
        k = ('inter', tuple(sorted(tok(self.a))), tuple(sorted(tok(self.b)))); d = ctx().user
        if k not in d:
            d[k] = z3.Int(ctx().fresh('common')); ctx().assume(d[k] >= 0)
        return SymInt(d[k])
    def __symlen__(self): return self.count()
    def __bool__(self): return bool(self.count() > 0)

class Drs(object):
    """the cache of Jacobians"""
    def __init__(self): self.empty = False
    def clear(self): self.empty = True
    def __iter__(self): raise Unsupported('enumeration of cached Jacobians')

class TList(list):
    """the worklist: known elements plus an unknown rest"""
    rest = None; asked = False
    def __symlen__(self):
        self.asked = True
        return list.__len__(self) if self.rest is None else SymInt(self.rest + list.__len__(self))
    def __bool__(self): return bool(self.__symlen__() != 0)
    def pop(self, *a):
        if self.rest is None: return list.pop(self, *a)
        if list.__len__(self): raise Unsupported('order of the worklist')
        if self.popped: raise Unsupported('two elements taken in one iteration')
        self.popped = True; self.rest = self.rest - 1
        return self.generic()
    def popleft(self): return self.pop(0)
    def extend(self, o):
        if isinstance(o, load.SymIter) or isinstance(o, TList): raise Unsupported('extend of the worklist')
        for x in o: self.append(x)
    def __iadd__(self, o): self.extend(o); return self
    def _no(self, *a, **k): raise Unsupported('operation on the worklist')
    __add__ = __radd__ = insert = remove = clear = copy = reverse = sort = __delitem__ = __setitem__ = __reversed__ = index = count = _no
    def __getitem__(self, k):
        if self.rest is not None: raise Unsupported('element of the worklist')
        return list.__getitem__(self, k)
    def __iter__(self):
        if self.rest is not None: raise Unsupported('enumeration of the worklist')
        return list.__iter__(self)
class TSet(set):
    old = None
    def __contains__(self, k): return set.__contains__(self, k) or (self.old is not None and k in self.old)
    def discard(self, k): raise Unsupported('removal from a set')
    remove = pop = clear = discard

def valid(e): return not ctx().feasible(z3.Not(e))
class SymParents(load.SymIter):
    """node._parents: any number of parents"""
    def __init__(self, node, g): self.node, self.g, self.n = node, g, None
    def __symlen__(self):
        if self.n is None: self.n = z3.Int(ctx().fresh('parents')); ctx().fact(self.n >= 0)
        return SymInt(self.n)
    def __bool__(self): return bool(self.__symlen__() > 0)
    def items(self): return ParIter(self, True)
    def keys(self): return ParIter(self, False)
    def __iter__(self): raise Unsupported('plain enumeration of parents')
    def sym_loop(self, q): return ParIter(self, False).sym_loop(q)
    def __getitem__(self, p): return self.g.link(p)
class ParIter(load.SymIter):
    def __init__(self, par, pairs): self.par, self.pairs = par, pairs
    def __symlen__(self): return self.par.__symlen__()
    def __bool__(self): return bool(self.par)
    def __iter__(self): raise Unsupported('plain enumeration of parents')
    def sym_loop(self, qual): return self.par.g.parent_loop(self, qual)

class GN(object):
    """a node known only by its fields"""
    def __init__(self, g, nm):
        d = self.__dict__
        d['nm'] = nm; d['_cache'] = {'r': 'value', 'drs': Drs(), 'rview': 'view'}; d['_itr'] = 'old tag'; d['_dirty_vars'] = NameSet(['dirty(%s)' % nm]); d['_parents'] = SymParents(self, g); d['inv'] = []; d['g'] = g
    def _invalidate_cacheprop_names(self, names): self.inv.append(names if isinstance(names, NameSet) else NameSet(tok(names)))
    def __setattr__(self, k, v): self.__dict__[k] = v
    def __hash__(self): return id(self)
    def __repr__(self): return self.nm

def cleared(n): return n._cache['r'] is None and getattr(n._cache['drs'], 'empty', len(n._cache['drs']) == 0 if hasattr(n._cache['drs'], '__len__') else False)

class G(object):
    def __init__(self): self.lists, self.sets = [], []; self.cut = False
    def link(self, p): return {'varnames': NameSet(['names(%s)' % p.nm])}
    def parent_loop(self, it, qual):
        c = ctx(); f = 'ch.Ch.clear_cache'
        if load.CARRIED.get(qual): raise Unsupported('loop %s carries %s' % (qual, sorted(load.CARRIED[qual])))
        n = it.par.node
        if not self.cut or n is not self.N: raise Unsupported('parents of another node')
        if c.choose(2) == 0:
            p = GN(self, 'P'); c.assume((it.par.__symlen__() >= 1).e)
            if c.choose(2): p._cache['r'] = None
            before = dict(p.__dict__); c.cover('a parent'); todo = self.todo
            k = list.__len__(todo)
            cachebefore = dict(p._cache)
            yield (p, self.link(p)) if it.pairs else p
            c.prove('a parent is told the names of the changed input', p._dirty_vars == NameSet(['dirty(P)', 'names(P)']), f)
            c.prove('properties of a parent that depend on the changed input are invalidated', len(p.inv) > 0 and all(v == NameSet(['names(P)']) for v in p.inv), f)
            c.prove('a parent is put on the worklist', any(x is p for x in list.__iter__(todo)), f)
            c.prove('nothing but the parents is put on the worklist', all(x is p for x in list(list.__iter__(todo))[k:]), f)
            for a in ('_itr', '_parents', 'nm'): c.prove('other fields of a parent are kept', p.__dict__.get(a) is before[a], f)
            c.prove('the cache of a parent is kept or cleared', p._cache == cachebefore or cleared(p), f)
            raise PathEnd()
        self.parents_done = True; c.cover('all parents')

def e_clear(with_itr):
    def run():
        m = mods(); c = ctx(); f = 'ch.Ch.clear_cache'
        g = G(); s = GN(g, 'self')
        itr = SymTag() if with_itr else None
        over_list = lambda *a: a[0] if a and isinstance(a[0], load.SymIter) else list(*a)
        def hook(l):
            r = TList(l); g.lists.append(r); return r
        def mset(*a):
            if not a or (isinstance(a[0], list) and not a[0]): r = TSet(); g.sets.append(r); return r
            if isinstance(a[0], NameSet): return a[0]
            if isinstance(a[0], list) and a[0] and all(isinstance(x, int) for x in a[0]): r = TSet(a[0]); g.sets.append(r); return r
            return set(*a)
        import types, collections
        coll = types.SimpleNamespace(**{k: getattr(collections, k) for k in collections.__all__}); coll.deque = lambda l=(): hook(list(list.__iter__(l)) if isinstance(l, list) else list(l))
        def whook(cond, qual):
            if 'clear_cache' not in qual: return None
            if load.CARRIED.get(qual): raise Unsupported('loop %s carries %s' % (qual, sorted(load.CARRIED[qual])))
            def gen():
                todo = [l for l in g.lists if any(x is s for x in list.__iter__(l))][-1:]
                if len(todo) != 1 or len(g.sets) != 1: raise Unsupported('worklist not recognised')
                todo, done = todo[0], g.sets[0]; g.todo = todo
                c.prove('invariant (on entry): the changed object is on the worklist, nothing is done', list(list.__iter__(todo)) == [s] and not len(done), f)
                # arbitrary state satisfying the invariant
                g.cut = True
                if not with_itr: s.__dict__['_itr'] = None
                list.clear(todo); todo.rest = z3.Int('rest'); c.assume(todo.rest >= 0); todo.popped = False
                done.old = set()
                N = GN(g, 'N') if c.choose(2) else s
                g.N = N; g.parents_done = False
                was_done = c.choose(2) == 1; tagged = with_itr and c.choose(2) == 1
                if was_done: done.old.add(id(N))
                if tagged: N.__dict__['_itr'] = itr
                if (was_done or tagged): N._cache['r'] = None; N._cache['drs'].clear()
                elif c.choose(2): N._cache['r'] = None      # differentiated, never evaluated
                todo.generic = lambda: N
                todo.asked = False; more = cond()
                if not todo.asked: raise Unsupported('worklist not recognised')
                if more:
                    before = dict(N.__dict__)
                    yield None
                    c.cover('done before' if was_done else 'tagged before' if tagged else 'new')
                    c.prove('one element is taken from the worklist', todo.popped, f)
                    c.prove('invariant (preserved): an element taken is done', id(N) in done or (with_itr and N._itr is itr), f)
                    c.prove('invariant (preserved): a done node has no cached value or Jacobian', cleared(N), f)
                    if not (was_done or tagged): c.prove('invariant (preserved): the parents of a done node were treated', g.parents_done or N._parents.n is not None and valid(N._parents.n == 0), f)
                    for a in ('_dirty_vars', '_parents', 'nm'): c.prove('other fields are kept', N.__dict__[a] is before[a], f)
                    c.prove('the tag is the current one or kept', N._itr is itr or N._itr is before['_itr'], f)
                    c.prove('properties of the node itself are kept', not N.inv, f)
                    c.prove('nothing but parents is added to the worklist', list.__len__(todo) == 0, f)
                    c.prove('only the element taken becomes done', set(done) <= {id(N)}, f)
                    raise PathEnd()
                c.cover('worklist empty')
            return gen()
        old = {k: m.__dict__.get(k, g) for k in ('list', 'set', 'collections')}
        m.__dict__.update(list=over_list, set=mset, collections=coll)
        load.HOOKS['while'] = whook; load.HOOKS['list'] = hook
        try: m.Ch.clear_cache(s, itr) if with_itr else m.Ch.clear_cache(s)
        finally:
            load.HOOKS['while'] = load.HOOKS['list'] = None
            for k, v in old.items():
                if v is g: m.__dict__.pop(k, None)
                else: m.__dict__[k] = v
        if not g.cut: raise Unsupported('no worklist loop was found')
        # the worklist is empty: done (and tagged) nodes are closed under parents and contain the changed object: lemma closure
    return run

class SymTag(object):
    pass

# ---- invalidation of dependent properties: any number of properties
class SymItems(load.SymIter):
    def __init__(self, pairs, cb): self.pairs, self.cb = pairs, cb
    def __iter__(self): raise Unsupported('plain enumeration of properties')
    def sym_loop(self, q): return self.cb(self.pairs, q)
class SymDeps(load.SymIter):
    def __init__(self, cb): self.cb = cb
    def items(self): return SymItems('items', self.cb)
    def values(self): return SymItems('values', self.cb)
    def keys(self): return SymItems('keys', self.cb)
    def sym_loop(self, q): return self.cb('keys', q)
    def __getitem__(self, k): return self.cur
def e_inval():
    m = mods(); c = ctx(); f = 'ch.Ch._invalidate_cacheprop_names'
    names = NameSet(['names']); ran = []
    def cb(pairs, qual):
        if load.CARRIED.get(qual): raise Unsupported('loop carries')
        ran.append(1)
        if c.choose(2) == 0:
            old = c.choose(2) == 1
            v = {'deps': NameSet(['deps']), 'value': 'val', 'out_of_date': old}; w = dict(v); s._depends_on_deps.cur = v
            yield {'items': ('prop', v), 'values': v, 'keys': 'prop'}[pairs]
            common = Inter(names, w['deps']).count()
            hit = bool(common > 0)
            c.prove('a property is out of date iff it was, or depends on one of the names', v['out_of_date'] == (old or hit), f)
            c.prove('value and dependencies of a property are kept', v['deps'] is w['deps'] and v['value'] is w['value'] and set(v) == set(w), f)
            c.cover('hit' if hit else 'miss'); raise PathEnd()
        c.cover('all')
    class S(object): pass
    s = S(); s._depends_on_deps = SymDeps(cb)
    over = dict(list=lambda *a: a[0] if a and isinstance(a[0], load.SymIter) else list(*a), set=lambda *a: a[0] if a and isinstance(a[0], NameSet) else set(*a), frozenset=lambda *a: a[0] if a and isinstance(a[0], NameSet) else frozenset(*a))
    old = {k: m.__dict__.get(k, over) for k in over}; m.__dict__.update(over)
    try: m.Ch._invalidate_cacheprop_names(s, names)
    finally:
        for k, v in old.items():
            if v is over: m.__dict__.pop(k, None)
            else: m.__dict__[k] = v
    if not ran: raise Unsupported('no loop over the properties was found')

# ---- real objects on small heaps
def classes(m):
    if hasattr(m, '__t_cache_cls'): return getattr(m, '__t_cache_cls')
    class B(m.Ch):
        """an operation with inputs a, b, an argument t and properties depending on them"""
        dterms = ('a', 'b'); terms = ('t',)
        def compute_r(self): self.log.append('r'); return ('B', self.nm, self.a.r.v if hasattr(self.a, 'dterms') else None, self.b.r.v if hasattr(self, 'b') else None, getattr(self, 't', None), self.pa, self.pt)
        def compute_dr_wrt(self, wrt): return None
        def on_changed(self, which): self.log.append(('changed', frozenset(which)))
        @m.depends_on('a')
        def pa(self): self.log.append('pa'); return ('pa', self.a.r.v)
        @m.depends_on('b', 't')
        def pt(self): self.log.append('pt'); return ('pt', self.b.r.v, self.t)
        def __repr__(self): return self.nm
    setattr(m, '__t_cache_cls', B)
    return B

def leaf(m, v): return m.Ch(v)
def mk(m, nm, a, b, t):
    B = classes(m); o = object.__new__(B)
    object.__setattr__(o, 'log', []); object.__setattr__(o, 'nm', nm)
    B.setup_terms()
    d = o.__dict__
    d.update(_dirty_vars=set(), _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': None, 'drs': weakref.WeakKeyDictionary()}, _make_dense=False, _make_sparse=False,
             _depends_on_deps={'pa': {'deps': {'a'}, 'value': None, 'out_of_date': True}, 'pt': {'deps': {'b', 't'}, 'value': None, 'out_of_date': True}})
    o.set(a=a, b=b, t=t)
    return o

def fresh(n, m):
    """the value of the expression built afresh: a term over leaf values and arguments"""
    if type(n) is m.Ch: return n.x
    a, b = fresh(n.a, m), fresh(n.b, m)
    return ('B', n.nm, a, b, n.t, ('pa', a), ('pt', b, n.t))

def below(n, m):
    out = [n]
    if type(n) is not m.Ch:
        for k in (n.a, n.b):
            for x in below(k, m):
                if not any(x is y for y in out): out.append(x)
    return out

def links_ok(nodes, m):
    for n in nodes:
        for p, d in list(n._parents.items()):
            if not all(getattr(p, k, None) is n for k in d['varnames']) or not d['varnames']: return False
    for p in nodes:
        if type(p) is m.Ch: continue
        for k in ('a', 'b'):
            q = getattr(p, k)
            if p not in q._parents or k not in q._parents[p]['varnames']: return False
    return True

def heap(m):
    """every expression with two leaves and up to three operations (each operation's inputs among the nodes before it)"""
    c = ctx()
    nodes = [leaf(m, 'x0'), leaf(m, 'y0')]
    n = 1 + c.choose(3)
    for i in range(n):
        k = len(nodes)
        if n == 3 and i == 1:   # keep the number of shapes moderate: the second operation uses the first
            a = nodes[2]; b = nodes[c.choose(k)]
        else: a = nodes[c.choose(k)]; b = nodes[c.choose(k)]
        nodes.append(mk(m, 'n%d' % i, a, b, 't%d' % i))
    return nodes

def e_heap_assign(kind):
    """any evaluations, one assignment, then: every value, notification and property is right"""
    def run():
        m = mods(); c = ctx()
        nodes = heap(m); ops = nodes[2:]; f = 'ch.Ch.__setattr__ / clear_cache / r / _call_on_changed / depends_on'
        # everything evaluated (or one node left unevaluated since construction)
        skip = c.choose(len(ops) + 1)
        for i, o in enumerate(ops):
            if i != skip: o.r
        for o in ops: o.log[:] = []
        dirty0 = {id(o): frozenset(o._dirty_vars) for o in ops}
        uptodate = {id(o): {k: not o._depends_on_deps[k]['out_of_date'] for k in ('pa', 'pt')} for o in ops}
        changed = {id(o): set() for o in ops}
        touched = {id(o): {k: False for k in 'abt'} for o in ops}
        def mark(n):       # names of inputs at or below which n lies
            for o in ops:
                for k in 'ab':
                    if any(x is n for x in below(getattr(o, k), m)): changed[id(o)].add(k)
        if kind == 'leaf':
            x = nodes[c.choose(2)]; x.x = 'new'; mark(x)
        elif kind == 'term':
            o = ops[c.choose(len(ops))]; o.t = 'newt'; changed[id(o)].add('t'); mark(o)
        elif kind == 'input':
            j = c.choose(len(ops)); o = ops[j]; k = 'ab'[c.choose(2)]
            new = nodes[c.choose(2 + j)] if c.choose(2) else leaf(m, 'z')
            oldv = getattr(o, k)
            setattr(o, k, new)
            nodes.append(new) if not any(new is q for q in nodes) else None
            changed[id(o)].add(k); mark(o)
        elif kind == 'raw':
            o = ops[c.choose(len(ops))]; o.a = 'rawvalue'
            c.prove('a plain value becomes a variable', type(o.a) is m.Ch and o.a.x == 'rawvalue', f)
            nodes.append(o.a); changed[id(o)].add('a'); mark(o)
        elif kind == 'set':
            o = ops[c.choose(len(ops))]; z = leaf(m, 'z'); nodes.append(z)
            o.set(a=z, t='newt'); changed[id(o)] |= {'a', 't'}; mark(o)
        elif kind == 'two':
            nodes[0].x = 'new'; mark(nodes[0])
            o = ops[c.choose(len(ops))]; o.set(t='nt2', a=nodes[1]); changed[id(o)] |= {'a', 't'}; mark(o)
        c.prove('links between inputs and their users are right', links_ok(nodes, m), f)
        names = {id(o): frozenset(changed[id(o)]) | dirty0[id(o)] for o in ops}
        for o in ops:
            c.prove('the names of the changed inputs are recorded, and no others', frozenset(o._dirty_vars) == names[id(o)], f)
            for k, deps in (('pa', {'a'}), ('pt', {'b', 't'})):
                od = o._depends_on_deps[k]['out_of_date']
                stale = (not uptodate[id(o)][k]) or bool(deps & changed[id(o)])
                c.prove('a property is out of date iff one of its inputs changed', od == stale, f)
        for o in ops: o.log[:] = []
        order = ops if c.choose(2) else ops[::-1]
        for o in order:
            want = fresh(o, m)
            c.prove('the value equals the value of the expression built afresh', o.r.v == want, f)
            c.prove('the value is read-only', o.r.flags.writeable is False, f)
        for o in ops:
            calls = [x for x in o.log if isinstance(x, tuple)]
            c.prove('the change callback ran once with exactly the changed names, before the value was computed', calls == ([('changed', names[id(o)])] if names[id(o)] else []) and (not calls or o.log[0] == calls[0]), f)
            c.prove('the value is computed at most once', o.log.count('r') <= 1, f)
            c.prove('properties are recomputed at most once', o.log.count('pa') <= 1 and o.log.count('pt') <= 1, f)
            n0 = len(o.log); o.r
            c.prove('asking again computes nothing', len(o.log) == n0, f)
        c.cover('done')
    return run

class Failure(Exception): pass
def e_r():
    """r and _call_on_changed on a node in any cache state"""
    m = mods(); c = ctx(); f = 'ch.Ch.r'
    log = []
    class N(m.Ch):
        dterms = (); terms = ()
        def compute_r(self):
            log.append('compute')
            if failing[0] == 1: raise Failure()
            return 'fresh'
        def on_changed(self, w):
            log.append(('changed', set(w)))
            if failing[0] == 2: raise Failure()
    s = object.__new__(N)
    failing = [c.choose(3)]
    dirty = c.choose(2); cached = c.choose(2)
    dv = {'k'} if dirty else set()
    base = Arr('fresh'); view = base.view(); view.flags.writeable = False
    if dirty and cached: raise Infeasible()      # names are recorded only together with clearing (clear_cache, __setattr__)
    s.__dict__.update(_dirty_vars=dv, _cache={'r': base if cached else None, 'drs': Drs(), 'rview': view if cached else None}, _itr=None, _parents={}, _depends_on_deps={})
    if failing[0]:
        if cached or failing[0] == 2 and not dirty: raise Infeasible()
        try: s.r
        except Failure: c.cover('failed')
        else: raise Unsupported('a failure during evaluation is not reported')
        was = failing[0]; failing[0] = 0; n = len(log)
        r = s.r
        c.prove('a failed evaluation leaves nothing behind: the value is the computed one', isinstance(r, Arr) and r.v == 'fresh' and 'compute' in log[n:], f)
        if was == 2: c.prove('a failed callback runs again before the next evaluation, with the same names', log[n:][:1] == [('changed', {'k'})], f)
        return
    r = s.r
    c.prove('the value is the computed one', isinstance(r, Arr) and r.v == 'fresh', f)
    c.prove('the value cannot be written to', r.flags.writeable is False, f)
    c.prove('the callback runs exactly if an input changed, with the names, before computing', log == ([('changed', {'k'})] if dirty else []) + ([] if cached else ['compute']), f)
    c.prove('no change is pending afterwards', len(s._dirty_vars) == 0, f)
    n = len(log); r2 = s.r
    c.prove('asking again returns the same without computing', r2.v == 'fresh' and len(log) == n and r2.flags.writeable is False, f)
    c.cover('dirty' if dirty else 'clean'); c.cover('cached' if cached else 'empty')

def e_depends():
    m = mods(); c = ctx(); f = 'ch.depends_on'
    log = []
    failing = [False]
    def fget(self):
        log.append('run')
        if failing[0]: raise Failure()
        return ('v', len(log))
    fget.__name__ = 'prop'
    how = c.choose(3)
    p = m.depends_on('a', 'b')(fget) if how == 0 else m.depends_on(['a', 'b'])(fget) if how == 1 else m.depends_on('a', ['b'])(fget)
    c.prove('the dependencies are the names given', set(p.fget.deps) == {'a', 'b'}, f)
    class S(object): pass
    s = S(); ood = c.choose(2) == 1
    s._depends_on_deps = {'prop': {'deps': {'a', 'b'}, 'value': 'remembered', 'out_of_date': ood}}
    others = {'other%d%d' % (k, o): {'deps': q, 'value': 'o', 'out_of_date': bool(o)} for k, q in enumerate((set(), {'a', 'b'}, {'a'}, {'b', 'c'}, {'prop'})) for o in (0, 1)} # every relation of their dependencies to this property's
    import copy; s._depends_on_deps.update(copy.deepcopy(others))
    if ood and c.choose(2):
        failing[0] = True
        try: p.fget(s)
        except Failure: pass
        else: raise Unsupported('a failure of a dependent property is not reported')
        failing[0] = False; log[:] = []
        c.cover('failed')
    v = p.fget(s)
    c.prove('recomputed exactly if out of date', len(log) == (1 if ood else 0) and v == (('v', 1) if ood else 'remembered'), f)
    d = s._depends_on_deps['prop']
    c.prove('remembered and up to date afterwards', d['out_of_date'] is False and d['value'] == v and p.fget(s) == v and len(log) == (1 if ood else 0), f)
    c.prove('other properties are kept', {k: v for k, v in s._depends_on_deps.items() if k != 'prop'} == others, f)
    c.cover('out of date' if ood else 'up to date')

# ---- assignment of one attribute: whatever lies above the object is treated by clear_cache (its contract)
def e_setattr():
    m = mods(); c = ctx(); f = 'ch.Ch.__setattr__'
    calls = []
    class N(m.Ch):
        dterms = ('a', 'b', 'pr'); terms = ('t',)
        def compute_r(self): raise Unsupported('evaluation during assignment')
        def clear_cache(self, itr=None): calls.append(itr)
        def _invalidate_cacheprop_names(self, names): inv.append(frozenset(names))
        @property
        def pr(self): return self.__dict__.get('_pr')
        @pr.setter
        def pr(self, v): self.__dict__['_pr'] = v
    inv = []
    def node(): 
        o = m.Ch.__new__(m.Ch); object.__setattr__(o, '_dirty_vars', set()); o.__dict__['x'] = 'leaf'; return o
    s = object.__new__(N)
    s.__dict__.update(_dirty_vars={'earlier'}, _itr=None, _parents=weakref.WeakKeyDictionary(), _cache={'r': None, 'drs': {}}, _depends_on_deps={}, _make_dense=False, _make_sparse=False)
    name = ('a', 't', 'other', 'pr', 't2')[c.choose(5)]
    # terms and dterms may also belong to the object alone
    if name == 't2' or c.choose(2):
        s.__dict__['terms'] = ['t', 't2']; s.__dict__['dterms'] = ['a', 'b', 'pr', 'd2']; N.dterms = ('b', 'pr'); N.terms = ('t',)
    itr = None if c.choose(2) == 0 else 'tag'
    other = node(); other._parents[s] = {'varnames': {'b'}}; s.__dict__['b'] = other
    def lk(o): return {id(k): frozenset(v['varnames']) for k, v in o._parents.items()}
    third = node(); 
    if name == 'a':
        oldk = c.choose(4)       # absent; an object of its own; the object also used as b; an object not linked
        old = None if oldk == 0 else other if oldk == 2 else node()
        if old is not None:
            s.__dict__['a'] = old
            if oldk in (1, 2): old._parents.setdefault(s, {'varnames': set()})['varnames'].add('a')
            old._parents[third] = {'varnames': {'z'}}
        newk = c.choose(4)       # plain value; new object; the object used as b; the old object
        new = 'raw' if newk == 0 else node() if newk == 1 else other if newk == 2 else (old if old is not None else node())
        if hasattr(new, '_parents'): new._parents[third] = {'varnames': {'z'}}
        N.__setattr__(s, 'a', new, itr) if itr else setattr(s, 'a', new)
        got = s.__dict__.get('a')
        if newk == 0: c.prove('a plain value becomes a variable holding it', type(got) is m.Ch and got.__dict__.get('x') == 'raw', f)
        else: c.prove('the new input is stored', got is new, f)
        if hasattr(got, '_parents'):
            want = {'a'} | ({'b'} if got is other else set())
            c.prove('the object is registered as a user of the new input, under exactly its names', lk(got).get(id(s)) == frozenset(want), f)
            if newk: c.prove('other users of the new input are kept', lk(got).get(id(third)) == frozenset({'z'}), f)
        if old is not None and old is not got:
            want = frozenset({'b'}) if old is other else None
            c.prove('the object is no longer registered under this name with the old input', lk(old).get(id(s)) == want, f)
            c.prove('other users of the old input are kept', lk(old).get(id(third)) == frozenset({'z'}), f)
        if got is not other: c.prove('other inputs keep their registration', lk(other).get(id(s)) == frozenset({'b'}), f)
        c.cover('input')
    else:
        v = 'value' if name != 'pr' else node()
        N.__setattr__(s, name, v, itr) if itr else setattr(s, name, v)
        c.prove('the value is stored', (s.__dict__['_pr'] if name == 'pr' else s.__dict__.get(name)) is v, f)
        c.prove('links are kept', lk(other) == {id(s): frozenset({'b'})}, f)
        c.cover(name)
    if name == 'other':
        c.prove('attributes that are not inputs change nothing else', set(s._dirty_vars) == {'earlier'} and not calls and not inv, f)
    else:
        c.prove('the name is recorded as changed', set(s._dirty_vars) == {'earlier', name}, f)
        if not calls or not inv: raise Unsupported('invalidation is not delegated to clear_cache and _invalidate_cacheprop_names')
        c.prove('everything above is cleared', len(calls) >= 1 and (calls[-1] is None or calls[-1] == itr), f)
        c.prove('dependent properties of the object are invalidated', any(name in i for i in inv) and all(i == frozenset({name}) for i in inv), f)

def e_setattr_leaf():
    """the fast path for plain variables"""
    m = mods(); c = ctx(); f = 'ch.Ch.__setattr__'
    calls = []
    x = m.Ch.__new__(m.Ch)
    orig = m.Ch.clear_cache
    try:
        m.Ch.clear_cache = lambda self, itr=None: calls.append((self, itr))
        k = c.choose(2)
        if k == 0:
            x.x = 'v'; c.prove('the value is stored', x.__dict__['x'] == 'v', f)
            c.prove('the change is recorded', 'x' in x._dirty_vars, f)
            if not calls: raise Unsupported('invalidation is not delegated to clear_cache')
            c.prove('everything above is cleared', calls[-1][0] is x, f)
            c.cover('x')
        else:
            x.label = 'v'; c.prove('the value is stored', x.__dict__['label'] == 'v', f)
            c.cover('other')
    finally: m.Ch.clear_cache = orig

def e_set():
    m = mods(); c = ctx(); f = 'ch.Ch.set'
    log = []
    class N(m.Ch):
        dterms = ('a', 'b', 'c', 'pr'); terms = ('t',)
        pr = property(lambda self: None)
        def __setattr__(self, name, value, itr=None): log.append((name, value, itr))
    s = object.__new__(N)
    names = [n for n in ('a', 'b', 't', 'pr') if c.choose(2)]
    m.Ch.set(s, **{n: 'value of ' + n for n in names})
    if names and not log: raise Unsupported('set does not assign through __setattr__')
    c.prove('every argument is assigned once, to its own value', sorted((n, v) for n, v, i in log) == sorted((n, 'value of ' + n) for n in names), f)
    if names:
        c.prove('the last assignment clears everything above, whatever the tags', log[-1][2] is None, f)
        c.prove('aliases are assigned last', 'pr' not in names or [n for n, v, i in log].index('pr') == len(names) - 1, f)
        tags = set(i for n, v, i in log[:-1])
        c.prove('one tag per call', len(tags) <= 1, f)
        # a second call uses another tag
        first = tags; log[:] = []
        m.Ch.set(s, a=1, b=2, t=3)
        t2 = set(i for n, v, i in log[:-1])
        c.prove('tags are not reused', not (first & t2) or first == {None}, f)
        # nor any other pair of calls: the tag is a one-to-one function of the number of the call
        i, j = z3.Int('call'), z3.Int('other_call'); c.assume(i >= 1); c.assume(j >= 1); c.assume(i != j)
        tg = []
        if isinstance(m.__dict__.get('_set_counter'), itertools.count):
          for k in (SymInt(i), SymInt(j)):
            log[:] = []; old = m._set_counter; m._set_counter = iter([k] * 50)
            try: m.Ch.set(s, a=1, b=2, t=3)
            finally: m._set_counter = old
            tg.append(log[0][2])
        if all(isinstance(q, SymInt) for q in tg) and tg: c.prove('two calls never use the same tag', tg[0].e != tg[1].e, f)
        elif tg: raise Unsupported('tag %r' % (tg[0],))
        c.cover('set')

# ---- lemmas over the contracts
def e_lemmas():
    c = ctx(); f = 'lemma'
    Nd = z3.DeclareSort('Node'); V = z3.DeclareSort('Value')
    B = z3.BoolSort()
    par = z3.Function('parent', Nd, Nd, B)            # par(n, p): p uses n
    up = z3.Function('up', Nd, Nd, B)                 # least reflexive-transitive closure, by its induction principle
    done = z3.Function('done', Nd, B)
    a = z3.Const('a', Nd); n, p, q = z3.Consts('n p q', Nd)
    # closure: done contains a and is closed under parents; induction principle instantiated with done
    ind = z3.Implies(z3.And(done(a), z3.ForAll([n, p], z3.Implies(z3.And(done(n), par(n, p)), done(p)))), z3.ForAll([n], z3.Implies(up(a, n), done(n))))
    def lemma(name, hyps, goal):
        cx = ctx(); k = len(cx.pc)
        r, s, dt = z3_check(hyps + [z3.Not(goal)])
        cx.obl.append(Obligation('lemma ' + name, f, 'proved' if r == 'unsat' else 'unknown', 'z3', dt, ''))
        # the hypotheses are not contradictory
        r2, _, _ = z3_check(hyps, 4000)
        if r2 == 'unsat': raise Unsupported('vacuous lemma ' + name)
    lemma('closure: when the worklist is empty everything above the changed object is done', [done(a), z3.ForAll([n, p], z3.Implies(z3.And(done(n), par(n, p)), done(p))), ind], z3.ForAll([n], z3.Implies(up(a, n), done(n))))
    # histories: INV = a remembered value is the value of the expression built afresh
    for what in ('value', 'Jacobian'):
        ca, ca2 = z3.Function('remembered', Nd, B), z3.Function('remembered_after', Nd, B)
        cv, cv2 = z3.Function('content', Nd, V), z3.Function('content_after', Nd, V)
        fr, fr2 = z3.Function('fresh', Nd, V), z3.Function('fresh_after', Nd, V)
        inv = z3.ForAll([n], z3.Implies(ca(n), cv(n) == fr(n))); inv2 = z3.ForAll([n], z3.Implies(ca2(n), cv2(n) == fr2(n)))
        assign = [z3.ForAll([n], z3.Implies(z3.Not(up(a, n)), z3.And(fr2(n) == fr(n), ca2(n) == ca(n), cv2(n) == cv(n)))), z3.ForAll([n], z3.Implies(up(a, n), z3.Not(ca2(n))))]
        lemma('%ss stay right under assignment' % what, [inv] + assign, inv2)
        ev = [z3.ForAll([n], fr2(n) == fr(n)), z3.ForAll([n], z3.Implies(ca2(n), z3.Or(z3.And(ca(n), cv2(n) == cv(n)), cv2(n) == fr(n))))]
        lemma('%ss stay right under evaluation' % what, [inv] + ev, inv2)
    c.cover('done')

def entries():
    A = ['compute_r and compute_dr_wrt read only the object\'s own attributes, its dependent properties and the values and Jacobians of its inputs (the fresh value of an object changes only if something at or below it changed)',
         'WeakKeyDictionary behaves as a dictionary while its keys are alive', 'on_changed does not assign to other objects', 'expressions are finite and acyclic (loops terminate)']
    E = [('__setattr__', e_setattr, ('input', 't', 'pr', 'other', 't2'), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch.__setattr__'], assumptions=A)),
         ('__setattr__ of a variable', e_setattr_leaf, ('x', 'other'), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch.__setattr__'], assumptions=A)),
         ('set', e_set, ('set',), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch.set'], assumptions=A, bounded='up to four attributes at once')),
         ('clear_cache', e_clear(False), ('a parent', 'all parents', 'done before', 'new', 'worklist empty'), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch.clear_cache'], assumptions=A)),
         ('clear_cache with tag', e_clear(True), ('a parent', 'all parents', 'done before', 'tagged before', 'new', 'worklist empty'), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch.clear_cache'], assumptions=A + ['nodes carrying the current tag were treated, with everything above them, in the same call of set()'])),
         ('_invalidate_cacheprop_names', e_inval, ('hit', 'miss', 'all'), dict(props=('C07', 'C08', 'C09'), functions=['ch.Ch._invalidate_cacheprop_names'], assumptions=A)),
         ('r', e_r, ('dirty', 'clean', 'cached', 'empty', 'failed'), dict(props=('C07', 'C09', 'C11'), functions=['ch.Ch.r', 'ch.Ch._call_on_changed'], assumptions=A)),
         ('depends_on', e_depends, ('out of date', 'up to date', 'failed'), dict(props=('C07', 'C08', 'C09'), functions=['ch.depends_on'], assumptions=A)),
         ('lemmas', e_lemmas, ('done',), dict(props=('C07', 'C08'), functions=[], assumptions=A))]
    for k in ('leaf', 'term', 'input', 'raw', 'set', 'two'):
        E.append(('small heaps, %s' % k, e_heap_assign(k), ('done',), dict(props=('C07', 'C09'), functions=['ch.Ch.__setattr__', 'ch.Ch.clear_cache', 'ch.Ch.set', 'ch.Ch.r', 'ch.Ch._call_on_changed', 'ch.depends_on'], assumptions=A, bounded='two leaves, up to three operations, all sharings; values are uninterpreted terms', max_paths=80000, weight=5)))
    return E
if __name__ == '__main__':
    import devrun; devrun.main(entries())
