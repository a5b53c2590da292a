"""Loads the repository's modules from their current source, mechanically rewritten only where loops and
displays must be interceptable:

  for T in I: B          ->  for T in __loop__(I, 'file:function#ordinal'): B
  while C: B             ->  for __w in __while__(lambda: (C), 'file:function#ordinal'): B
  [E for T in I if C]    ->  __comp__(lambda T: E, I, lambda T: C)     (single generator, plain name)
  'text' % args          ->  __fmt__('text', args)                       (messages with symbolic arguments)
  [..] display in a function body -> __list__([..])

Nothing else is changed: every statement, expression, call and class of the module is the repository's own.
At run time __loop__/__while__/__comp__/__list__ behave exactly like the original construct for ordinary
values; only symbolic collections are treated by loop cuts.
"""
import ast, os, sys, types, builtins
import core

REPO = os.environ.get('CHUMPY_ROOT', '/repo')

PARALLEL = {}    # loop -> the body only computes locals and stores into subscripts
def parallel(loop):
    def ok(ss):
        for s in ss:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                        if not isinstance(x, (ast.Name, ast.Subscript)): return False
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, (ast.Name, ast.Subscript)): return False
            elif isinstance(s, ast.Expr):
                if not isinstance(s.value, ast.Constant): return False
            elif isinstance(s, ast.If):
                if not (ok(s.body) and ok(s.orelse)): return False
            elif isinstance(s, ast.For):
                if s.orelse or not ok(s.body): return False
            elif not isinstance(s, (ast.Pass, ast.Assert, ast.Continue)): return False
        return True
    return not loop.orelse and ok(loop.body)
CARRIED = {}     # loop -> local names that carry a value from one iteration to the next, or out of the loop
def carried(loop, func):
    """local names assigned in the loop body that are read in the body before they are certainly assigned, or read after the loop"""
    target = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)} if isinstance(loop, ast.For) else set()
    stored = {n.id for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    early = set()
    def loads(e, done):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored and n.id not in done: early.add(n.id)
    def block(ss, done):
        for s in ss:
            if isinstance(s, ast.If):
                loads(s.test, done); a = block(s.body, set(done)); b = block(s.orelse, set(done)); done |= (a & b)
                if s.body and isinstance(s.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)): done |= b
                if s.orelse and isinstance(s.orelse[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)): done |= a
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For): loads(s.iter, done); inner = set(done) | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                else: loads(s.test, done); inner = set(done)
                block(s.body, inner); block(s.orelse, set(done))
            elif isinstance(s, (ast.Try, ast.With)):
                for x in getattr(s, 'items', []):
                    loads(x.context_expr, done)
                block(s.body, set(done)); [block(h.body, set(done)) for h in getattr(s, 'handlers', [])]; block(getattr(s, 'orelse', []), set(done)); block(getattr(s, 'finalbody', []), set(done))
            elif isinstance(s, ast.AugAssign):
                loads(s.value, done)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in done: early.add(s.target.id)
                else: loads(s.target, done)
            elif isinstance(s, (ast.FunctionDef, ast.Lambda)): loads(s, done)
            else:
                loads(s, done)
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): done.add(n.id)
        return done
    block(loop.body, set(target))
    out = set()
    if func is not None:
        end = getattr(loop, 'end_lineno', loop.lineno)
        for n in ast.walk(func):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stored and n.lineno > end:
                # read after the loop: harmless only if assigned again in between (checked roughly: a plain assignment or loop target first)
                st = [m.lineno for m in ast.walk(func) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id == n.id and end < m.lineno <= n.lineno]
                if not st: out.add(n.id)
    # counters that are only counted and returned influence nothing
    benign = set()
    for v in early | out:
        ok = func is not None
        for n in ast.walk(func) if func is not None else ():
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.Name) and ch.id == v:
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant): continue
                    if isinstance(n, ast.AugAssign) and isinstance(n.value, ast.Constant) and n.target is ch: continue
                    if isinstance(n, ast.Return): continue
                    ok = False
        if ok: benign.add(v)
    return (early | out) - benign

class Rewriter(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname; self.stack = []; self.fn = []; self.n = {}
    def _q(self):
        q = '.'.join(self.stack)
        k = self.n.get(q, 0); self.n[q] = k + 1
        return '%s:%s#%d' % (self.fname, q, k)
    def visit_ClassDef(self, node):
        self.stack.append(node.name); self.generic_visit(node); self.stack.pop(); return node
    def visit_FunctionDef(self, node):
        self.stack.append(node.name); self.fn.append(node); self.generic_visit(node); self.fn.pop(); self.stack.pop(); return node
    def infn(self): return any(True for s in self.stack if s) 
    def visit_For(self, node):
        if not self.stack: return self.generic_visit(node) or node
        q = self._q(); CARRIED[q] = carried(node, self.fn[-1] if self.fn else None); PARALLEL[q] = parallel(node); self.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(ast.Name('__loop__', ast.Load()), [node.iter, ast.Constant(q)], []), node.iter)
        return node
    def visit_While(self, node):
        if not self.stack: return self.generic_visit(node) or node
        q = self._q(); CARRIED[q] = carried(node, self.fn[-1] if self.fn else None); self.generic_visit(node)
        lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), node.test)
        new = ast.For(ast.Name('__w', ast.Store()), ast.Call(ast.Name('__while__', ast.Load()), [lam, ast.Constant(q)], []), node.body, node.orelse, None)
        return ast.copy_location(new, node)
    def visit_ListComp(self, node):
        self.generic_visit(node)
        if not self.stack: return node
        if len(node.generators) == 1 and isinstance(node.generators[0].target, ast.Name) and not node.generators[0].is_async:
            g = node.generators[0]
            def lam(body):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            cond = ast.Constant(None) if not g.ifs else lam(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs)))
            return ast.copy_location(ast.Call(ast.Name('__comp__', ast.Load()), [lam(node.elt), g.iter, cond], []), node)
        return node
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__fmt__', ast.Load()), [node.left, node.right], []), node)
        return node
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and len(self.stack) > 0 and self.stack[-1][:1].islower() or (isinstance(node.ctx, ast.Load) and len(self.stack) > 0 and self.stack[-1].startswith('_')):
            return ast.copy_location(ast.Call(ast.Name('__list__', ast.Load()), [node], []), node)
        return node

# ---- run time of the rewritten constructs; contract scripts install handlers for symbolic collections
class SymIter(object):
    """marker base: collections over which loops are cut; sym_loop(qual) is a generator"""

HOOKS = {'list': None, 'while': None, 'range': None}

def __loop__(it, qual):
    if isinstance(it, SymIter): return it.sym_loop(qual)
    return it

def __while__(cond, qual):
    h = HOOKS['while']
    if h is not None:
        g = h(cond, qual)
        if g is not None: return g
    return _plain_while(cond, qual)

def _plain_while(cond, qual):
    n = 0
    while cond():
        n += 1
        if n > 10000: raise core.Unsupported('loop %s runs too long' % qual)
        yield None

def __comp__(f, it, cond):
    if isinstance(it, SymIter): return it.sym_map(f, cond)
    if cond is None: return [f(x) for x in it]
    return [f(x) for x in it if cond(x)]

def __list__(l):
    h = HOOKS['list']
    return l if h is None else h(l)

def _has_sym(a):
    if isinstance(a, tuple): return any(_has_sym(x) for x in a)
    return isinstance(a, (core.SymInt, core.SymReal, core.SymBool)) or getattr(type(a), '__symbolic__', False)
def __fmt__(s, a):
    return s if _has_sym(a) else s % a

def s_len(x):
    f = getattr(type(x), '__symlen__', None)
    return f(x) if f else builtins.len(x)
def s_float(x):
    if isinstance(x, (core.SymReal, core.SymInt)): return core.SymReal.of(x)
    f = getattr(type(x), '__symfloat__', None)
    if f: return f(x)
    return builtins.float(x)
class _float(float):
    pass
def s_int(x, *a):
    if isinstance(x, core.SymInt): return x
    return builtins.int(x, *a)
def s_max(*a, **k):
    if len(a) == 2 and not k and any(isinstance(v, (core.SymReal, core.SymInt)) for v in a):
        x, y = a
        return y if (y > x) else x    # CPython's max(x, y)
    return builtins.max(*a, **k)
def s_min(*a, **k):
    if len(a) == 2 and not k and any(isinstance(v, (core.SymReal, core.SymInt)) for v in a):
        x, y = a
        return y if (y < x) else x
    return builtins.min(*a, **k)
def s_id(x):
    f = getattr(type(x), '__symid__', None)
    return f(x) if f else builtins.id(x)

def s_range(*a):
    if any(isinstance(x, core.SymInt) for x in a):
        h = HOOKS['range']
        if h is not None: return h(*a)
    return builtins.range(*a)

SHADOW = {'range': s_range, 'len': s_len, 'float': s_float, 'int': s_int, 'max': s_max, 'min': s_min, 'id': s_id}
RUNTIME = {'__loop__': __loop__, '__while__': __while__, '__comp__': __comp__, '__list__': __list__, '__fmt__': __fmt__}

_code = {}
def code_for(mod):
    if mod not in _code:
        path = os.path.join(REPO, 'chumpy', mod + '.py')
        src = open(path).read()
        tree = Rewriter(mod).visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _code[mod] = compile(tree, path, 'exec')
    return _code[mod]

class Loader(object):
    """import hook serving `chumpy` from rewritten source"""
    def find_spec(self, name, path=None, target=None):
        import importlib.machinery
        if name == 'chumpy' or name.startswith('chumpy.'):
            short = name.split('.', 1)[1] if '.' in name else '__init__'
            if not os.path.exists(os.path.join(REPO, 'chumpy', short + '.py')): return None
            spec = importlib.machinery.ModuleSpec(name, self, is_package=(short == '__init__'), origin=os.path.join(REPO, 'chumpy', short + '.py'))
            return spec
        return None
    def create_module(self, spec): return None
    def exec_module(self, module):
        short = module.__name__.split('.', 1)[1] if '.' in module.__name__ else '__init__'
        module.__dict__.update(RUNTIME); module.__dict__.update(SHADOW)
        module.__file__ = os.path.join(REPO, 'chumpy', short + '.py')
        exec(code_for(short), module.__dict__)

_hook = Loader()

def fresh_chumpy(stubs, mods=('chumpy.ch',)):
    """(re)load the repository's package over the given stub modules; returns the modules asked for"""
    for k in [k for k in sys.modules if k == 'chumpy' or k.startswith('chumpy.')]: del sys.modules[k]
    if _hook not in sys.meta_path: sys.meta_path.insert(0, _hook)
    for k, v in stubs.items(): sys.modules[k] = v
    import importlib
    pkg = types.ModuleType('chumpy'); pkg.__path__ = [os.path.join(REPO, 'chumpy')]; pkg.__file__ = os.path.join(REPO, 'chumpy', '__init__.py')
    sys.modules['chumpy'] = pkg
    out = [importlib.import_module(m) for m in mods]
    return out[0] if len(out) == 1 else out
