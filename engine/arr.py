"""Arrays of any size, entry by entry.

An array is a shape and a function from indices to entries.  Every axis of an explicit shape is a product of "atoms" (symbolic
or literal sizes), so ravel/reshape only regroup atoms and the position arange(n).reshape(s) holds at an index is the index
itself (`Flat`).  Shapes may also be opaque (any rank, any sizes): numpy's broadcasting is then an uninterpreted projection from
the positions of the result to the positions of each operand, the same for every elementwise function (contract of numpy).
Entries are real terms (machine arithmetic is treated as exact and finite), integers, truth values, or sums over an index.
Sparse matrices are lists of triples over an index domain; their entry (i, j) is found by solving row = i, column = j.
The stubs below are the contracts of numpy and scipy that the theories t_ops, t_reord and t_linalg assume."""
import z3, core, load, stubs, math, random
from fractions import Fraction
from core import *

Shape = z3.DeclareSort('Shape')
SizeF = z3.Function('Size', Shape, z3.IntSort())
BcF = z3.Function('Bc', Shape, Shape, Shape)
NDimF = z3.Function('NDim', Shape, z3.IntSort())
ONE = z3.IntVal(1)
def iv(k): return k if z3.is_expr(k) else (k.e if isinstance(k, SymInt) else z3.IntVal(int(k)))
def lit(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None
def valid(c):
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return not ctx().feasible(z3.Not(c))
def same(a, b):
    if a.eq(b): return True
    d = z3.simplify(a - b)
    if z3.is_int_value(d): return d.as_long() == 0
    return valid(a == b)
def unsup(*a): raise Unsupported(' '.join(str(x) for x in a))

# ------------------------------------------------------------------ sizes
class SymProd(SymInt):
    """a size with its factorisation into atoms (and, for a masked selection, the domain it counts)"""
    def __init__(self, atoms, mask=None):
        self.atoms = tuple(a for a in map(iv, atoms) if lit(a) != 1); self.mask = mask
        e = ONE
        for a in self.atoms: e = e * a
        if mask is not None: e = z3.Int(ctx().fresh('count'))
        SymInt.__init__(self, z3.simplify(e) if len(self.atoms) < 2 else e)
    def __mul__(self, o):
        if isinstance(o, bool): o = int(o)
        if self.mask is None and isinstance(o, SymProd) and o.mask is None: return SymProd(self.atoms + o.atoms)
        if self.mask is None and isinstance(o, (int, SymInt)): return SymProd(self.atoms + (iv(o),))
        return SymInt.__mul__(self, o)
    def __rmul__(self, o):
        if self.mask is None and isinstance(o, (int, SymInt)): return SymProd((iv(o),) + self.atoms)
        return SymInt.__rmul__(self, o)
    def _cmp1(self):
        return z3.And([a == 1 for a in self.atoms]) if self.atoms else z3.BoolVal(True)
    def _same(self, o):
        if isinstance(o, SymProd) and self.mask is None and o.mask is None and len(o.atoms) == len(self.atoms) and all(a.eq(b) for a, b in zip(self.atoms, o.atoms)): return True
        return False
    def __eq__(self, o):
        if o is self or self._same(o): return True
        if isinstance(o, (int, float)) and o == 1 and self.mask is None: return SymBool(self._cmp1())
        return SymInt.__eq__(self, o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __gt__(self, o):
        if isinstance(o, (int, float)) and o == 1 and self.mask is None: return SymBool(z3.Not(self._cmp1()))
        return SymInt.__gt__(self, o)
    def __le__(self, o):
        r = self > o
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __lt__(self, o):
        if isinstance(o, int) and o == 2 and self.mask is None: return SymBool(self._cmp1())
        return SymInt.__lt__(self, o)
    def __ge__(self, o):
        r = self < o
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return 11
def prod(atoms): return SymProd(atoms)
def atoms_of(n):
    """the atoms of a size given by the code"""
    if isinstance(n, SymProd): return n.atoms, n.mask
    if isinstance(n, SymInt):
        v = lit(n.e)
        return ((n.e,) if v != 1 else ()), None
    if isinstance(n, float):
        if not float(n).is_integer(): raise TypeError('size %r' % (n,))
        n = int(n)
    if isinstance(n, int): return ((z3.IntVal(n),) if n != 1 else ()), None
    unsup('size', n)

PRIM = {}
def oshape_of(e):
    """the opaque shape denoted by a term"""
    k = e.sexpr(); PRIM[k] = e
    return OShape([k], e)
class OShape(object):
    """an opaque shape: the broadcast of a set of primitive shapes"""
    __symbolic__ = True
    def __init__(self, prims, e=None):
        if e is not None: self.prims = frozenset(prims); self.e = e; return
        self.prims = frozenset(prims); ps = [PRIM.get(p) if p in PRIM else z3.Const(p, Shape) for p in sorted(self.prims)]; self.e = ps[0]
        for p in ps[1:]:
            # numpy's broadcast shape is a commutative function of the two shapes
            c = ctx(); e = BcF(self.e, p)
            if ('bc', str(e)) not in c.user:
                # no smaller than either (arrays are not empty)
                c.user['bc', str(e)] = 1; c.assume(z3.And(e == BcF(p, self.e), SizeF(e) >= SizeF(self.e), SizeF(e) >= SizeF(p), SizeF(self.e) >= 1, SizeF(p) >= 1))
            self.e = e
    def size(self):
        c = ctx(); k = ('size', str(self.e))
        if k not in c.user: c.user[k] = 1; c.assume(SizeF(self.e) >= 1)
        return SizeF(self.e)
    def __eq__(self, o):
        if isinstance(o, OShape): return True if o.prims == self.prims else SymBool(self.e == o.e)
        if isinstance(o, tuple) and len(o) == 1 and isinstance(o[0], Splice): return self == o[0].s
        return unsup('comparison of an opaque shape with', o) if isinstance(o, tuple) else False
    def __ne__(self, o):
        r = self.__eq__(o); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return 17
    def __iter__(self): return iter((Splice(self),))
    def __len__(self): unsup('rank of an opaque shape')
    def __symlen__(self):
        c = ctx(); n = NDimF(self.e); c.assume(n >= 1); return SymInt(n)
    def __add__(self, o): return (Splice(self),) + tuple(o)
    def __radd__(self, o): return tuple(o) + (Splice(self),)
    def __getitem__(self, k): unsup('entry of an opaque shape')
class Splice(object):
    """the entries of an opaque shape inside a tuple"""
    __symbolic__ = True
    def __init__(self, s): self.s = s
    def __eq__(self, o): return (self.s == o.s) if isinstance(o, Splice) else unsup('comparison of shapes')
    def __ne__(self, o):
        r = self.__eq__(o); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return 19

ProjF = z3.Function('Proj', Shape, Shape, z3.IntSort(), z3.IntSort())
def proj(big, small, i):
    """position in an operand of shape small that position i of the broadcast shape big comes from"""
    if big.prims == small.prims: return i
    if len(small.prims) > 1:
        # a partial broadcast: use the projection to it
        pass
    v = ProjF(big.e, small.e, i)
    ctx().user.setdefault('range facts', []).append((v, small))
    c = ctx(); k = ('proj', str(v))
    if k not in c.user:
        # an operand that already has all the entries only gets additional axes of length one
        c.user[k] = 1; c.assume(z3.Implies(z3.And(i >= 0, i < big.size()), z3.And(v >= 0, v < small.size()))); c.assume(z3.Implies(big.size() == small.size(), v == i))
    return v

# ------------------------------------------------------------------ entries
class Flat(object):
    """a position: mixed radix number"""
    def __init__(self, atoms, idx): self.atoms, self.idx = tuple(atoms), tuple(idx)
    def poly(self):
        e = z3.IntVal(0)
        for a, i in zip(self.atoms, self.idx): e = e * a + i
        return z3.simplify(e)
class SumV(object):
    """sum of body over the variables"""
    def __init__(self, vs, dims, body): self.vs, self.dims, self.body = vs, dims, body

def ti(v):
    if isinstance(v, Flat): return v.poly()
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SymInt): return v.e
    if z3.is_expr(v):
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v): return v
    unsup('integer from', v)
SUMF = {}
def sumterm(v):
    """a sum as a term: a function of the free variables of its body (only where the theory allows it)"""
    if not ctx().user.get('sumterms'): unsup('arithmetic on a sum')
    if isinstance(v, SumList):
        r = rv(0)
        for p in v.ps: r = r + (sumterm(p) if isinstance(p, (SumV, SumList)) else tr(p))
        return r
    body = z3.simplify(tr(v.body)); vs = {x.get_id() for x in v.vs}
    free = []; st = [body]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in vs: free.append(x)
    free.sort(key=lambda x: str(x))
    # canonical names, in order of first occurrence in the body
    order = []
    def walk(x):
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(x.eq(y) for y in order): order.append(x)
        for y in x.children(): walk(y)
    walk(body)
    free = [x for x in order if x.get_id() not in vs]; bound = [x for x in order if x.get_id() in vs]
    if len(bound) < len(v.vs): bound += [x for x in v.vs if not any(x.eq(y) for y in bound)]
    sub = [(x, z3.Const('free%d' % k, x.sort())) for k, x in enumerate(free)] + [(x, z3.Int('bound%d' % k)) for k, x in enumerate(bound)]
    key = (z3.substitute(body, *sub).sexpr(), tuple(z3.substitute(dict((y.get_id(), d) for y, d in zip(v.vs, v.dims))[x.get_id()], *sub).sexpr() for x in bound))
    if key not in SUMF: SUMF[key] = z3.Function('sumterm%d' % len(SUMF), *([x.sort() for x in free] + [R])) if free else z3.Real('sumterm%d' % len(SUMF))
    return SUMF[key](*free) if free else SUMF[key]
def tr(v):
    if isinstance(v, (SumV, SumList)): return sumterm(v)
    if isinstance(v, (Flat, SymInt)): return z3.ToReal(ti(v))
    if isinstance(v, SymReal): return v.e
    if isinstance(v, bool): return rv(int(v))
    if isinstance(v, (int, float)):
        if v != v or v in (float('inf'), float('-inf')): unsup('non-finite constant')
        return rv(v)
    if isinstance(v, SymBool): v = v.e
    if z3.is_expr(v):
        if z3.is_bool(v): return z3.If(v, rv(1), rv(0))
        if z3.is_int(v): return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
        return v
    unsup('number from', v)
def isint(v): return isinstance(v, (Flat, SymInt)) or (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v))
def isbool(v): return isinstance(v, (bool, SymBool)) or (z3.is_expr(v) and z3.is_bool(v))
def tb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SymBool): return v.e
    if z3.is_expr(v) and z3.is_bool(v): return v
    return (ti(v) != 0) if isint(v) else (tr(v) != 0)

# ------------------------------------------------------------------ scalar functions
R = z3.RealSort()
FN = {n: z3.Function(n, R, R) for n in 'sin cos tan arcsin arccos arctan sqrt exp log gamma digamma floor ceil sinh cosh tanh log1p expm1'.split()}
POW = z3.Function('power', R, R, R)
def num(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None
def power(x, p):
    x, p = tr(x), tr(p); n = num(p)
    if n is not None and n.denominator == 1 and -4 <= n <= 4:
        n = int(n); r = rv(1)
        for _ in range(abs(n)): r = r * x
        return r if n >= 0 else rv(1) / r
    if n == Fraction(1, 2): return FN['sqrt'](x)
    if n == Fraction(-1, 2): return rv(1) / FN['sqrt'](x)
    return POW(x, p)
def diff(e, atom):
    """derivative of a real term with respect to one of its subterms; undefined points are excluded by the caller's assumptions"""
    if e.eq(atom): return rv(1)
    if z3.is_rational_value(e) or z3.is_int(e): return rv(0)
    if z3.is_app(e) and e.decl().name().startswith('sumterm'): unsup('derivative of a nested sum')
    if not occurs(e, atom) and not (SUMF and any_sumterm(e)): return rv(0)
    k = e.decl().kind(); ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = rv(0)
        for c in ch: r = r + diff(c, atom)
        return r
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], atom)
        for c in ch[1:]: r = r - diff(c, atom)
        return r
    if k == z3.Z3_OP_UMINUS: return -diff(ch[0], atom)
    if k == z3.Z3_OP_MUL:
        r = rv(0)
        for i, c in enumerate(ch):
            t = diff(c, atom)
            for j, d in enumerate(ch):
                if j != i: t = t * d
            r = r + t
        return r
    if k == z3.Z3_OP_DIV: a, b = ch; return diff(a, atom) / b - a * diff(b, atom) / (b * b)
    if k == z3.Z3_OP_ITE: return z3.If(ch[0], diff(ch[1], atom), diff(ch[2], atom))
    n = e.decl().name()
    if n == 'power':
        x, p = ch
        return diff(x, atom) * p * power(x, p - 1) + diff(p, atom) * FN['log'](x) * e
    if n in FN:
        u = ch[0]; du = diff(u, atom); F = FN
        d = dict(sin=lambda: F['cos'](u), cos=lambda: -F['sin'](u), tan=lambda: 1 / (F['cos'](u) * F['cos'](u)), arcsin=lambda: 1 / F['sqrt'](1 - u * u), arccos=lambda: -1 / F['sqrt'](1 - u * u),
                 arctan=lambda: 1 / (1 + u * u), sqrt=lambda: 1 / (2 * e), exp=lambda: e, log=lambda: 1 / u, gamma=lambda: F['digamma'](u) * e, floor=lambda: rv(0), ceil=lambda: rv(0),
                 sinh=lambda: F['cosh'](u), cosh=lambda: F['sinh'](u), tanh=lambda: 1 - e * e, log1p=lambda: 1 / (1 + u), expm1=lambda: e + 1).get(n)
        if d: return d() * du
    unsup('derivative of', n)
def any_sumterm(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith('sumterm'): return True
        st.extend(x.children())
    return False
def occurs(e, atom):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(atom): return True
        st.extend(x.children())
    return False
def apps(e, decls):
    """the distinct applications in e of the given functions"""
    st = [e]; seen = set(); out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl() in decls: out.append(x)
        st.extend(x.children())
    return out
def axioms(es):
    """instances of the facts about the scalar functions that occur"""
    out = []; seen = set(); st = list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if not z3.is_app(x) or x.num_args() == 0: continue
        n = x.decl().name()
        if n == 'sqrt': u = x.arg(0); out += [z3.Implies(u >= 0, z3.And(x >= 0, x * x == u)), z3.Implies(u > 0, x > 0)]
        elif n in ('sin', 'cos') : u = x.arg(0); s, c = FN['sin'](u), FN['cos'](u); out.append(s * s + c * c == 1)
        elif n == 'tan': u = x.arg(0); s, c = FN['sin'](u), FN['cos'](u); out += [s * s + c * c == 1, z3.Implies(c != 0, x * c == s)]
        elif n == 'exp': out.append(x > 0)
        elif n == 'power': out.append(z3.Implies(x.arg(0) > 0, x > 0))
    return out

# numeric meaning, to tell spurious counter-models from real ones
def _pw(a, b): return float(a) ** float(b)
NUM = dict(sin=math.sin, cos=math.cos, tan=math.tan, arcsin=math.asin, arccos=math.acos, arctan=math.atan, sqrt=math.sqrt, exp=math.exp, log=math.log, gamma=math.gamma, floor=math.floor, ceil=math.ceil,
           sinh=math.sinh, cosh=math.cosh, tanh=math.tanh, log1p=math.log1p, expm1=math.expm1, power=_pw)
def _digamma(x):
    r = 0.
    while x < 8: r -= 1. / x; x += 1
    f = 1. / (x * x)
    return r + math.log(x) - .5 / x - f * (1. / 12 - f * (1. / 120 - f * (1. / 252 - f * (1. / 240 - f / 132))))
NUM['digamma'] = _digamma
class NoValue(Exception): pass
def neval(e, env, rng):
    k = e.get_id()
    if k in env: return env[k]
    r = _neval(e, env, rng); env[k] = r; return r
def _neval(e, env, rng):
    if z3.is_rational_value(e): return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int(e): raise NoValue('integer')
    ch = e.children(); kd = e.decl().kind(); n = e.decl().name()
    if kd == z3.Z3_OP_UNINTERPRETED:
        if n in NUM: return NUM[n](*[neval(c, env, rng) for c in ch])
        if z3.is_real(e): # an entry of an operand (its index plays no role): one value per term
            return rng.choice([rng.uniform(-3, 3), rng.uniform(.05, .95), rng.uniform(-.95, -.05), rng.uniform(1, 4)])
        raise NoValue(n)
    if kd == z3.Z3_OP_AND: return all([neval(c, env, rng) for c in ch])
    if kd == z3.Z3_OP_OR: return any([neval(c, env, rng) for c in ch])
    if kd == z3.Z3_OP_NOT: return not neval(ch[0], env, rng)
    if kd == z3.Z3_OP_IMPLIES: return (not neval(ch[0], env, rng)) or neval(ch[1], env, rng)
    if kd == z3.Z3_OP_ITE: return neval(ch[1], env, rng) if neval(ch[0], env, rng) else neval(ch[2], env, rng)
    if kd in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and not z3.is_real(ch[0]): raise NoValue('eq')
    v = [neval(c, env, rng) for c in ch]
    if kd == z3.Z3_OP_ADD: return sum(v)
    if kd == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
    if kd == z3.Z3_OP_UMINUS: return -v[0]
    if kd == z3.Z3_OP_MUL:
        r = 1.
        for x in v: r *= x
        return r
    if kd == z3.Z3_OP_DIV: return v[0] / v[1]
    if kd == z3.Z3_OP_LT: return v[0] < v[1]
    if kd == z3.Z3_OP_LE: return v[0] <= v[1]
    if kd == z3.Z3_OP_GT: return v[0] > v[1]
    if kd == z3.Z3_OP_GE: return v[0] >= v[1]
    if kd == z3.Z3_OP_EQ: return v[0] == v[1]
    if kd == z3.Z3_OP_DISTINCT: return v[0] != v[1]
    raise NoValue(n)
def numerically_different(a, b, conds, tries=400, need=1):
    """is there a point, satisfying the value conditions, at which a and b clearly differ? -> True/False/None (nothing could be evaluated)"""
    rng = random.Random(5); ok = 0
    for _ in range(tries):
        env = {}
        try:
            good = True
            for c in conds:
                try:
                    if not neval(c, env, rng): good = False; break
                except NoValue: continue
            if not good: continue
            x, y = neval(a, env, rng), neval(b, env, rng)
        except (NoValue,): return None
        except (ZeroDivisionError, ValueError, OverflowError): continue
        if isinstance(x, complex) or isinstance(y, complex): continue
        ok += 1
        if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)): return True
    return False if ok else None

def prove_eq(name, a, b, func, conds=()):
    """entry equality under the path condition: z3 with the facts about the functions; a counter-model counts only if the two sides
    differ numerically when the functions get their real meaning"""
    c = ctx(); a, b = z3.simplify(tr(a)), z3.simplify(tr(b))
    if a.eq(b): return c.prove(name, True, func)
    ax = axioms([a, b] + [x for x in c.pc])
    def numeric():
        x, y, cs = merge_entries(a, b, list(conds) + [p for p in c.pc])
        r = numerically_different(x, y, cs)
        return bool(r) if r is not None else not has_fn([a, b])
    goal = a == b
    if conds or ax: goal = z3.Implies(z3.And(list(conds) + ax), goal)
    return c.prove(name, goal, func, timeout=8000, numeric=numeric)
def merge_entries(a, b, conds):
    """entries of operands whose indices are provably equal become one term"""
    val = [x for x in conds if not z3.is_quantifier(x)]
    ap = {}
    st = [a, b] + val; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(x) and all(z3.is_int(k) for k in x.children()): ap.setdefault(x.decl().name(), []).append(x)
    sub = []
    g = z3.And(val) if val else z3.BoolVal(True)
    for n, xs in ap.items():
        reps = []
        for x in xs:
            for r in reps:
                if all(p.eq(q) for p, q in zip(x.children(), r.children())) or valid(z3.Implies(g, z3.And([p == q for p, q in zip(x.children(), r.children())]))): sub.append((x, r)); break
            else: reps.append(x)
    if not sub: return a, b, conds
    s = lambda e: z3.substitute(e, *sub)
    return s(a), s(b), [s(e) for e in val]
def has_fn(es):
    st = list(es); seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st.extend(x.children())
        if z3.is_app(x) and x.num_args() and (x.decl().name() in FN or x.decl().name() == 'power'): return True
    return False

# ------------------------------------------------------------------ arrays
class Buf(object):
    def __init__(self, fn, ro=False, owner=''): self.fn, self.ro, self.owner, self.prot = fn, ro, owner, None
class _Flags(object):
    def __init__(self, a): self.a = a
    @property
    def writeable(self): return not self.a.ro
    @writeable.setter
    def writeable(self, v): self.a.ro = not v
    c_contiguous = True

class _NdMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, SArr)
class ndarray(object, metaclass=_NdMeta): pass

class Axes(tuple): pass

class SArr(object):
    """axes: tuple of tuples of atoms, or an OShape; fn(idx) with one index per atom"""
    __symbolic__ = True
    __array_priority__ = 10
    def __init__(self, axes, fn=None, buf=None, imap=None, mask=None, ro=False, kind='f'):
        if isinstance(axes, OShape): self.axes = axes; self.atoms = (axes.size(),)
        else:
            self.axes = tuple(tuple(a for a in map(iv, g) if lit(a) != 1) for g in axes); self.atoms = tuple(a for g in self.axes for a in g)
        self.buf = buf or Buf(fn); self.imap = imap; self.mask = mask; self.ro = ro; self.kind = kind
    # ---- shape
    @property
    def opaque(self): return isinstance(self.axes, OShape)
    @property
    def shape(self):
        if self.opaque: return self.axes
        return tuple((lambda p: (lit(p.e) if lit(p.e) is not None else p))(SymProd(g, self.mask)) for g in self.axes)
    @shape.setter
    def shape(self, s):
        r = self.reshape(s); self.axes = r.axes; self.atoms = r.atoms
    @property
    def ndim(self): return self.axes.__symlen__() if self.opaque else len(self.axes)
    @property
    def size(self):
        p = SymProd(self.atoms, self.mask)
        v = lit(p.e) if self.mask is None else None
        return v if v is not None else p
    def __symlen__(self):
        s = self.shape
        return s[0] if not isinstance(s, OShape) else unsup('len of an opaque shape')
    def __len__(self):
        s = self.shape
        if isinstance(s, OShape): unsup('len of an opaque shape')
        if not s: raise TypeError('len() of unsized object')
        if isinstance(s[0], int): return s[0]
        unsup('concrete length')
    dtype = stubs.Float64
    nnz = property(lambda self: self.size)
    @property
    def flags(self): return _Flags(self)
    def at(self, idx):
        idx = tuple(map(iv, idx))
        if core.CTX is not None and core.CTX.user.get('par'):
            core.CTX.user.setdefault('par_read', {})[id(self.buf)] = self.buf
            if id(self.buf) in core.CTX.user.get('par_written', ()): unsup('reading an array that the loop writes')
        return self.buf.fn(self.imap(idx) if self.imap else idx)
    def with_axes(self, axes): return SArr(axes, buf=self.buf, imap=self.imap, mask=self.mask, ro=self.ro, kind=self.kind)
    def view(self, *a): return self.with_axes(self.axes)
    def copy(self, *a, **k): return frozen(self)
    def __copy__(self): return frozen(self)
    def __deepcopy__(self, m): return frozen(self)
    def astype(self, *a, **k):
        if self.kind == 'f' and a and str(a[0]) not in (str(stubs.Float64), "<class 'float'>"): unsup('conversion of real entries to integers')
        return frozen(self)
    def ravel(self, order='C'): return self.reshape((-1,))
    def flatten(self, order='C'): return frozen(self.reshape((-1,)))
    @property
    def flat(self): return self.ravel()
    def tolist(self):
        if self.opaque or len(self.axes) > 1: unsup('tolist')
        return list(self)
    def item(self, *a):
        if a: unsup('item')
        return self.scalar()
    def scalar(self):
        """the only entry"""
        if not ctx().feasible(z3.Not(z3.And([z3.BoolVal(True)] + [a == 1 for a in self.atoms]))): return wrap(self.at(tuple(z3.IntVal(0) for _ in self.atoms)))
        unsup('the only entry of an array of several')
    def __float__(self): unsup('float of an array')
    def __symfloat__(self): return self.scalar()
    def __bool__(self):
        v = self.scalar()
        return bool(v)
    def reshape(self, *ns, **kw):
        if len(ns) == 1: ns = ns[0]
        return reshape(self, ns)
    # ---- rearranging
    @property
    def T(self): return self.transpose()
    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], int): axes = axes[0]
        return transpose(self, axes if axes else None)
    def swapaxes(self, a, b): return swapaxes(self, a, b)
    def squeeze(self, axis=None): unsup('squeeze')
    def __iter__(self):
        if self.opaque or not self.axes: unsup('iteration')
        n = SymProd(self.axes[0]); n = lit(n.e)
        if n is None: unsup('iteration over an axis of unknown length')
        return iter([self[k] for k in range(n)])
    def __getitem__(self, k): return getitem(self, k)
    def __setitem__(self, k, v): setitem(self, k, v)
    def fill(self, v): self._write(lambda old, idx: v)
    def _write(self, f):
        if self.ro or self.buf.ro: raise ValueError('assignment destination is read-only')
        if self.imap is not None:
            if self.buf.prot: ctx().prove(self.buf.prot[0], False, self.buf.prot[1])
            unsup('writing through a rearranged view')
        if core.CTX is not None and core.CTX.user.get('par'): unsup('assignment of a whole array inside a loop')
        old = self.buf.fn
        memo = {}
        self.buf.fn = lambda idx: f(old(idx), idx)
    # ---- arithmetic
    def _b(self, o, f, kind=None, rev=False):
        if not isinstance(o, (SArr, int, float, SymInt, SymReal, bool, SymBool)): return NotImplemented
        return ufunc2(f, o, self, kind) if rev else ufunc2(f, self, o, kind)
    def __add__(self, o): return self._b(o, f_add)
    def __radd__(self, o): return self._b(o, f_add, rev=True)
    def __sub__(self, o): return self._b(o, f_sub)
    def __rsub__(self, o): return self._b(o, f_sub, rev=True)
    def __mul__(self, o): return self._b(o, f_mul)
    def __rmul__(self, o): return self._b(o, f_mul, rev=True)
    def __truediv__(self, o): return self._b(o, f_div)
    def __rtruediv__(self, o): return self._b(o, f_div, rev=True)
    def __pow__(self, o): return self._b(o, f_pow)
    def __rpow__(self, o): return self._b(o, f_pow, rev=True)
    def __neg__(self): return ufunc1(f_neg, self)
    def __pos__(self): return self
    def __abs__(self): return ufunc1(f_abs, self)
    def __floordiv__(self, o): return self._b(o, f_fdiv)
    def __mod__(self, o): return self._b(o, f_mod)
    def __lt__(self, o): return self._b(o, cmpf(lambda a, b: a < b), 'b')
    def __le__(self, o): return self._b(o, cmpf(lambda a, b: a <= b), 'b')
    def __gt__(self, o): return self._b(o, cmpf(lambda a, b: a > b), 'b')
    def __ge__(self, o): return self._b(o, cmpf(lambda a, b: a >= b), 'b')
    def __eq__(self, o):
        return self._b(o, cmpf(lambda a, b: a == b), 'b') if o is not None else False
    def __ne__(self, o):
        return self._b(o, cmpf(lambda a, b: a != b), 'b') if o is not None else True
    __hash__ = None
    def __and__(self, o): return self._b(o, lambda a, b: z3.And(tb(a), tb(b)), 'b')
    def __or__(self, o): return self._b(o, lambda a, b: z3.Or(tb(a), tb(b)), 'b')
    def __invert__(self): return ufunc1(lambda a: z3.Not(tb(a)), self, 'b')
    def _i(self, o, f):
        if isinstance(o, SArr):
            if not o.opaque and o.atoms == (): v = o.at(()); g = lambda idx: v
            elif self.opaque and o.opaque:
                if not (o.axes == self.axes): unsup('in-place operation with broadcasting')
                g = o.at
            elif not self.opaque and not o.opaque and len(self.atoms) == len(o.atoms) and all(same(a, b) for a, b in zip(self.atoms, o.atoms)): g = frozen(o).at
            else: unsup('in-place operation with broadcasting')
        else: g = lambda idx: o
        self._write(lambda old, idx: f(old, g(idx))); return self
    def __iadd__(self, o): return self._i(o, f_add)
    def __isub__(self, o): return self._i(o, f_sub)
    def __imul__(self, o): return self._i(o, f_mul)
    def __itruediv__(self, o): return self._i(o, f_div)
    # ---- methods
    def sum(self, axis=None, **k): return np_sum(self, axis)
    def mean(self, axis=None, **k): return np_mean(self, axis)
    def dot(self, o): return np_dot(self, o)
    __matmul__ = dot
    def repeat(self, n, axis=None): return np_repeat(self, n, axis)
    def conj(self): return self
    real = property(lambda self: self)
    def any(self, *a): unsup('any')
    def all(self, *a): unsup('all')
    def max(self, axis=None): return np_amax(self, axis)
    def min(self, axis=None): return np_amin(self, axis)
    def nonzero(self): return np_nonzero(self)
    def __repr__(self): return 'SArr(%s)' % (self.axes,)

def wrap(v):
    if isinstance(v, (int, float, bool, SymInt, SymReal, SymBool)): return v
    if isinstance(v, Flat): return SymInt(v.poly())
    if isinstance(v, SumV): return SArr((), lambda idx: v)
    if z3.is_bool(v): return SymBool(v)
    if z3.is_int(v):
        n = lit(v); return SymInt(v) if n is None else n
    return SymReal(v)
def frozen(a, ro=False):
    f = a.buf.fn; m = a.imap
    return SArr(a.axes, (lambda idx: f(m(idx))) if m else f, mask=a.mask, ro=ro, kind=a.kind)
def kindof(*a):
    ks = [x.kind if isinstance(x, SArr) else ('b' if isinstance(x, (bool, SymBool)) else 'i' if isinstance(x, (int, SymInt)) else 'f') for x in a]
    return 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
def asarr(x):
    if isinstance(x, SArr): return x
    if isinstance(x, (int, float, SymInt, SymReal, bool, SymBool)): return SArr((), lambda idx: x, kind=kindof(x))
    if isinstance(x, (list, tuple)):
        xs = [asarr(v) for v in x]
        if not xs: return SArr(((z3.IntVal(0),),), lambda idx: rv(0))
        return stack0(xs)
    if x is None: raise TypeError('None is not a number')
    r = getattr(type(x), '__symarr__', None)
    if r: return r(x)
    if hasattr(type(x), 'compute_r'): return x.r
    unsup('array from', type(x).__name__)
def stack0(xs):
    """np.array of a literal list of arrays of equal shape"""
    n = len(xs); a0 = xs[0]
    if a0.opaque: unsup('array of arrays of unknown shape')
    for x in xs[1:]:
        if x.opaque or len(x.axes) != len(a0.axes): raise ValueError('inhomogeneous')
    xs = [frozen(x) for x in xs]
    if n == 1: return SArr(((),) + a0.axes, xs[0].at, kind=kindof(*xs))
    def f(idx):
        k, rest = idx[0], idx[1:]
        kl = lit(k)
        if kl is not None: return xs[kl].at(rest)
        vs = [x.at(rest) for x in xs]
        return ite_chain(k, vs)
    return SArr(((z3.IntVal(n),),) + a0.axes, f, kind=kindof(*xs))
def ite_chain(k, vs):
    if all(isbool(v) for v in vs): vs = [tb(v) for v in vs]
    elif all(isint(v) for v in vs): vs = [ti(v) for v in vs]
    else: vs = [tr(v) for v in vs]
    r = vs[-1]
    for i in range(len(vs) - 2, -1, -1): r = z3.If(k == i, vs[i], r)
    return r

# ---- elementwise
def align_axis(ga, gb):
    """two axes under broadcasting -> (axis, use_a, use_b)"""
    if len(ga) == len(gb) and all(x.eq(y) for x, y in zip(ga, gb)): return ga, True, True
    if not ga: return gb, False, True
    if not gb: return ga, True, False
    if len(ga) == len(gb) and all(same(x, y) for x, y in zip(ga, gb)): return ga, True, True
    da, db = SymProd(ga), SymProd(gb)
    c = ctx()
    if len(ga) == 1 and len(gb) == 1:
        if c.fork(da.e == db.e): return ga, True, True
        if c.fork(da.e == 1): return gb, False, True
        if c.fork(db.e == 1): return ga, True, False
        raise ValueError('operands could not be broadcast together')
    if valid(da.e == 1): return gb, False, True
    if valid(db.e == 1): return ga, True, False
    unsup('broadcasting of axes with different factorisations')
def align(a, b):
    """-> (axes, map for a, map for b): maps take an index of the result"""
    if a.mask is not None or b.mask is not None:
        if a.mask is not None and b.mask is not None and a.mask[0] == b.mask[0]: return a.axes, (lambda i: i), (lambda i: i)
        if b.atoms == () and b.mask is None: return a.axes, (lambda i: i), (lambda i: ())
        if a.atoms == () and a.mask is None: return b.axes, (lambda i: ()), (lambda i: i)
        unsup('broadcasting of a masked selection')
    if a.opaque and b.opaque:
        if a.axes.prims == b.axes.prims: return a.axes, (lambda i: i), (lambda i: i)
        if a.axes.prims <= b.axes.prims: return b.axes, (lambda i: (proj(b.axes, a.axes, i[0]),)), (lambda i: i)
        if b.axes.prims <= a.axes.prims: return a.axes, (lambda i: i), (lambda i: (proj(a.axes, b.axes, i[0]),))
        if ctx().fork(a.axes.e == b.axes.e): return a.axes, (lambda i: i), (lambda i: i)
        big = OShape(a.axes.prims | b.axes.prims)
        return big, (lambda i: (proj(big, a.axes, i[0]),)), (lambda i: (proj(big, b.axes, i[0]),))
    if a.opaque or b.opaque:
        o, e = (a, b) if a.opaque else (b, a)
        if e.atoms == () and (len(e.axes) == 0 or valid(o.axes.__symlen__().e >= len(e.axes))):
            return (o.axes, (lambda i: i), (lambda i: ())) if a.opaque else (o.axes, (lambda i: ()), (lambda i: i))
        unsup('broadcasting of an opaque with an explicit shape')
    na, nb = len(a.axes), len(b.axes); n = max(na, nb)
    A = ((),) * (n - na) + a.axes; B = ((),) * (n - nb) + b.axes
    axes = []; pa = []; pb = []; pos = 0
    for ga, gb in zip(A, B):
        g, ua, ub = align_axis(ga, gb)
        axes.append(g)
        for k in range(len(g)):
            if ua: pa.append(pos + k)
            if ub: pb.append(pos + k)
        if not ua: pa.extend([None] * len(ga))
        if not ub: pb.extend([None] * len(gb))
        pos += len(g)
    z = z3.IntVal(0)
    ma = lambda i: tuple(z if k is None else i[k] for k in pa)
    mb = lambda i: tuple(z if k is None else i[k] for k in pb)
    return tuple(axes), ma, mb
def ufunc2(f, a, b, kind=None):
    if not isinstance(a, SArr) and not isinstance(b, SArr): return wrap(f(val(a), val(b)))
    a, b = frozen(asarr(a)), frozen(asarr(b))
    axes, ma, mb = align(a, b)
    return SArr(axes, lambda i: f(a.at(ma(i)), b.at(mb(i))), mask=a.mask or b.mask, kind=kind or kindof(a, b))
def ufunc1(f, a, kind=None):
    if not isinstance(a, SArr):
        if isinstance(a, (list, tuple)) or hasattr(type(a), 'compute_r'): a = asarr(a)
        else: return wrap(f(val(a)))
    a = frozen(a)
    return SArr(a.axes, lambda i: f(a.at(i)), mask=a.mask, kind=kind or a.kind)
def val(x):
    if isinstance(x, SymBool): return x.e
    if isinstance(x, SymReal): return x.e
    return x
def sumlift(f):
    def g(a, b):
        if isinstance(a, SumV) or isinstance(b, SumV): return f(a, b, True)
        return f(a, b, False)
    return g
def f_add(a, b):
    if isinstance(a, SumV) or isinstance(b, SumV):
        for s, o in ((a, b), (b, a)):
            if isinstance(s, SumV) and not isinstance(o, SumV) and num(tr(o)) == 0: return s
        return SumList(parts(a) + parts(b))
    if isint(a) and isint(b):
        if isinstance(a, Flat) and lit(ti(b)) == 0: return a
        if isinstance(b, Flat) and lit(ti(a)) == 0: return b
        return ti(a) + ti(b)
    # an integer-valued float array of zeros added to positions (np.add(arange, zeros)) keeps the position
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Flat) and not isint(y) and num(tr(y)) == 0: return x
    if isbool(a) and isbool(b): return z3.Or(tb(a), tb(b))
    return tr(a) + tr(b)
class SumList(object):
    def __init__(self, ps): self.ps = ps
def parts(v): return v.ps if isinstance(v, SumList) else [v]
def f_sub(a, b): return f_add(a, f_neg(b)) if (isinstance(a, (SumV, SumList)) or isinstance(b, (SumV, SumList))) else (ti(a) - ti(b) if isint(a) and isint(b) else tr(a) - tr(b))
def f_neg(a):
    if isinstance(a, SumV): return SumV(a.vs, a.dims, -tr(a.body))
    if isinstance(a, SumList): return SumList([f_neg(p) for p in a.ps])
    return -ti(a) if isint(a) else -tr(a)
def f_mul(a, b):
    for s, o in ((a, b), (b, a)):
        if isinstance(s, SumV) and not isinstance(o, (SumV, SumList)): return SumV(s.vs, s.dims, tr(s.body) * tr(o))
    if isinstance(a, (SumV, SumList)) or isinstance(b, (SumV, SumList)): unsup('product of sums')
    if isbool(a) and isbool(b): return z3.And(tb(a), tb(b))
    if (isint(a) or isbool(a)) and (isint(b) or isbool(b)): return ti(a) * ti(b)
    return tr(a) * tr(b)
def f_div(a, b):
    if isinstance(a, SumV) and not isinstance(b, (SumV, SumList)): return SumV(a.vs, a.dims, tr(a.body) / tr(b))
    return tr(a) / tr(b)
def f_pow(a, b):
    if isint(a) and isint(b) and lit(ti(b)) is not None and 0 <= lit(ti(b)) <= 4:
        r = z3.IntVal(1)
        for _ in range(lit(ti(b))): r = r * ti(a)
        return r
    return power(a, b)
def f_fdiv(a, b):
    if isint(a) and isint(b):
        # a position divided by its last radices
        if isinstance(a, Flat):
            d = ti(b); n = len(a.atoms)
            p = ONE
            for k in range(n - 1, -1, -1):
                p = p * a.atoms[k]
                if same(z3.simplify(p), d): return Flat(a.atoms[:k], a.idx[:k])
        return ti(a) / ti(b)
    unsup('floor division of reals')
def f_mod(a, b):
    if isint(a) and isint(b):
        if isinstance(a, Flat):
            d = ti(b); n = len(a.atoms); p = ONE
            for k in range(n - 1, -1, -1):
                p = p * a.atoms[k]
                if same(z3.simplify(p), d): return Flat(a.atoms[k:], a.idx[k:])
        return ti(a) % ti(b)
    unsup('remainder of reals')
def f_abs(a): return z3.If(tr(a) >= 0, tr(a), -tr(a)) if not isint(a) else z3.If(ti(a) >= 0, ti(a), -ti(a))
def cmpf(f):
    def g(a, b):
        if isinstance(a, (SumV, SumList)) or isinstance(b, (SumV, SumList)): unsup('comparison of sums')
        if isinstance(a, float) and not math.isfinite(a) or isinstance(b, float) and not math.isfinite(b):
            if isinstance(a, float) and isinstance(b, float): return bool(f(a, b))
            return z3.BoolVal(f(a, 0.)) if isinstance(a, float) and not math.isfinite(a) else z3.BoolVal(f(0., b))
        if isint(a) and isint(b): return f(ti(a), ti(b))
        if isbool(a) and isbool(b): return f(ti(a), ti(b))
        return f(tr(a), tr(b))
    return g

# ---- reshape
Arg = z3.DeclareSort('Arg')
class SymArg(object):
    """an arbitrary argument of a rearranging function (an index expression, an axis, repetitions, ...)"""
    __symbolic__ = True
    def __init__(self, e): self.e = e if z3.is_expr(e) else z3.Const(e, Arg)
    def __eq__(self, o):
        if isinstance(o, SymArg): return True if o.e.eq(self.e) else SymBool(self.e == o.e)
        if isinstance(o, (SArr, OShape)): unsup('comparison of an argument')
        return SymBool(self.e == argterm(o))
    def __ne__(self, o):
        r = self.__eq__(o); return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return 23
    def __iter__(self): return iter((ArgSplice(self),))
    def __sym_atleast_1d__(self): return self
    def __bool__(self): unsup('truth of an argument')
    def __index__(self): unsup('integer argument')
    def ravel(self): return self
class ArgSplice(SymArg):
    def __init__(self, a): self.e = a.e
    def __iter__(self): unsup('nested argument')
    __hash__ = SymArg.__hash__
TupF = {}
def argterm(x):
    if isinstance(x, SymArg): return x.e
    if isinstance(x, (list, tuple)):
        if len(x) == 1 and isinstance(x[0], ArgSplice): return x[0].e
        k = len(x)
        if k not in TupF: TupF[k] = z3.Function('tuple%d' % k, *([Arg] * (k + 1))) if k else z3.Const('emptytuple', Arg)
        return TupF[k](*[argterm(v) for v in x]) if k else TupF[k]
    if x is None or isinstance(x, (int, float, str, bool, type(Ellipsis))): return z3.Const('arg:%r' % (x,), Arg)
    if isinstance(x, SymInt): return z3.Function('int_arg', z3.IntSort(), Arg)(x.e)
    if isinstance(x, slice): return argterm(('slice', x.start, x.stop, x.step))
    if isinstance(x, OShape): return z3.Function('shape_arg', Shape, Arg)(x.e)
    if isinstance(x, SArr): 
        i = tuple(z3.Int('k%d' % q) for q in range(len(x.atoms)))
        unsup('array as an argument')
    unsup('argument', x)
FILL = {'diag', 'diagflat'}
KEEP = {'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'expand_dims', 'reshape'}      # same entries in the same order
def natural(name, a, args):
    """contract of numpy's rearranging functions: entry i of the result is the entry Sel(shape, arguments, i) of the array (or 0, for
    functions that fill); Sel depends on nothing else"""
    if not a.opaque: a = to_opaque(a)
    c = ctx(); ar = [argterm(x) for x in args]; n = len(ar)
    sh = z3.Function('shape_%s%d' % (name, n), *([Shape] + [Arg] * n + [Shape]))(a.axes.e, *ar)
    ns = oshape_of(sh)
    if name in KEEP:
        c.assume(ns.size() == a.axes.size())
        return SArr(ns, buf=a.buf, imap=a.imap, ro=a.ro, kind=a.kind)
    sel = z3.Function('sel_%s%d' % (name, n), *([Shape] + [Arg] * n + [z3.IntSort(), z3.IntSort()])); fill = z3.Function('fill_%s%d' % (name, n), *([Shape] + [Arg] * n + [z3.IntSort(), z3.BoolSort()]))
    f = frozen(a)
    def at(i):
        s = sel(a.axes.e, *(ar + [i[0]])); k = ('sel', str(s))
        if k not in c.user:
            c.user[k] = 1; c.assume(z3.Implies(z3.And(i[0] >= 0, i[0] < ns.size()), z3.And(s >= 0, s < a.axes.size())))
        v = f.at((s,))
        if name in FILL: return _ite(fill(a.axes.e, *(ar + [i[0]])), z3.IntVal(0) if f.kind == 'i' else rv(0), v)
        return v
    return SArr(ns, at, kind=a.kind)
def to_opaque(a):
    if len(a.atoms) == 1 and z3.is_app(a.atoms[0]) and a.atoms[0].decl().name() == 'Size' and len(a.axes) == 1:
        return SArr(oshape_of(z3.Function('flatshape', Shape, Shape)(a.atoms[0].arg(0))), buf=a.buf, imap=a.imap, ro=a.ro, kind=a.kind) if False else unsup('rearranging an explicit shape')
    unsup('rearranging an explicit shape')
def reshape(a, ns):
    if isinstance(ns, SymArg): return natural('reshape', a, (ns,))
    if isinstance(ns, OShape):
        if a.opaque and a.axes.prims == ns.prims: return a.view()
        if len(a.atoms) == 1 and same(a.atoms[0], ns.size()) or not a.atoms and valid(ns.size() == 1):
            return SArr(ns, buf=a.buf, imap=a.imap, mask=a.mask, ro=a.ro, kind=a.kind)
        raise ValueError('cannot reshape')
    if isinstance(ns, SArr): ns = [ns[k] for k in range(len(ns))]
    if isinstance(ns, (int, SymInt)): ns = (ns,)
    ns = list(ns)
    if len(ns) == 1 and isinstance(ns[0], Splice): return reshape(a, ns[0].s)
    if any(isinstance(n, Splice) for n in ns): return reshape_splice(a, ns)
    minus = [k for k, n in enumerate(ns) if isinstance(n, int) and n == -1]
    if len(minus) > 1: raise ValueError('can only specify one unknown dimension')
    if a.mask is not None:
        if len(ns) == 1: return a.with_axes((a.atoms,))
        unsup('reshape of a masked selection')
    at = list(a.atoms)
    want = [None if k in minus else list(atoms_of(n)[0]) for k, n in enumerate(ns)]
    axes = [None] * len(ns)
    def take(want_k, avail, front):
        """atoms for one axis from the front/back of avail"""
        got = []; rest = list(want_k)
        if not rest: return [], avail
        n = len(rest)
        seg = avail[:n] if front else avail[len(avail) - n:] if n <= len(avail) else []
        if len(seg) == n and all(same(x, y) for x, y in zip(seg, rest)): return (seg, avail[n:]) if front else (seg, avail[:len(avail) - n])
        p = ONE
        for w in rest: p = p * w
        q = ONE
        for k in range(1, len(avail) + 1):
            x = avail[k - 1] if front else avail[-k]
            q = q * x
            if same(z3.simplify(q), z3.simplify(p)): return (avail[:k], avail[k:]) if front else (avail[-k:], avail[:-k])
        if valid(p == 1): return [], avail
        return None, avail
    lo, hi = 0, len(ns); avail = at
    stop = minus[0] if minus else len(ns)
    for k in range(stop):
        g, avail = take(want[k], avail, True)
        if g is None: return split_reshape(a, ns)
        axes[k] = tuple(g)
    for k in range(len(ns) - 1, stop, -1):
        g, avail = take(want[k], avail, False)
        if g is None: return split_reshape(a, ns)
        axes[k] = tuple(g)
    if minus: axes[stop] = tuple(avail)
    elif avail:
        if all(valid(x == 1) for x in avail): return split_reshape(a, ns)
        p = ONE; q = ONE
        for x in avail: p = p * x
        raise ValueError('cannot reshape')
    return SArr(tuple(axes), buf=a.buf, imap=a.imap, mask=None, ro=a.ro, kind=a.kind)
def split_reshape(a, ns):
    """a rank-1 array of one atom whose size is a product is split (row-major)"""
    if len(a.atoms) == 1 and not any(isinstance(n, int) and n == -1 for n in ns):
        at = [x for n in ns for x in atoms_of(n)[0]]
        p = ONE
        for x in at: p = p * x
        if valid(p == a.atoms[0]):
            axes = tuple(tuple(atoms_of(n)[0]) for n in ns)
            old = a.imap
            m = lambda i: (Flat(at, i).poly(),)
            return SArr(axes, buf=a.buf, imap=(lambda i: old(m(i))) if old else m, ro=a.ro, kind=a.kind)
    unsup('reshape of %s to %s' % (a.axes, ns))
def reshape_splice(a, ns):
    ns2 = [n for n in ns if not (isinstance(n, int) and n == 1)]
    unsup('reshape with an opaque part')

def _opaque_perm(a, what): unsup(what, 'of an array of unknown rank')
def transpose(a, axes=None):
    a = asarr(a)
    if a.opaque: return opaque_map('transpose', a, (axes,))
    n = len(a.axes)
    if axes is None: axes = tuple(range(n))[::-1]
    axes = [int(k) for k in axes]
    if sorted(k % n for k in axes) != list(range(n)): raise ValueError('axes do not match')
    axes = [k % n for k in axes]
    start = []; p = 0
    for g in a.axes: start.append(p); p += len(g)
    new = tuple(a.axes[k] for k in axes)
    src = [start[k] + q for k in axes for q in range(len(a.axes[k]))]      # new atom position -> old atom position
    inv = {o: nw for nw, o in enumerate(src)}
    m = lambda i: tuple(i[inv[o]] for o in range(len(src)))
    old = a.imap
    if src == list(range(len(src))): return a.with_axes(new)
    return SArr(new, buf=a.buf, imap=(lambda i: old(m(i))) if old else m, mask=a.mask, ro=a.ro, kind=a.kind)
def normaxis(k, n):
    k = int(k)
    if not -n <= k < n: raise ValueError('axis %d is out of bounds for array of dimension %d' % (k, n))
    return k % n
def swapaxes(a, x, y):
    if a.opaque: return opaque_map('swapaxes', a, (x, y))
    n = len(a.axes); x, y = normaxis(x, n), normaxis(y, n); p = list(range(n)); p[x], p[y] = p[y], p[x]
    return transpose(a, p)
def np_rollaxis(a, axis, start=0):
    a = asarr(a)
    if a.opaque: return opaque_map('rollaxis', a, (axis, start))
    n = len(a.axes); axis = normaxis(axis, n)
    start = int(start)
    if start < 0: start += n
    if axis < start: start -= 1
    p = list(range(n)); p.remove(axis); p.insert(start, axis)
    return transpose(a, p)
def np_moveaxis(a, s, d):
    a = asarr(a)
    if a.opaque: return opaque_map('moveaxis', a, (s, d))
    n = len(a.axes); s = [s] if isinstance(s, int) else list(s); d = [d] if isinstance(d, int) else list(d)
    s = [normaxis(k, n) for k in s]; d = [normaxis(k, n) for k in d]
    order = [k for k in range(n) if k not in s]
    for dd, ss in sorted(zip(d, s)): order.insert(dd, ss)
    return transpose(a, order)

# ---- functions that only move, repeat or drop entries, on arrays of unknown rank: a selection of positions that depends on the
# shape and the arguments alone (contract of numpy); entries may be filled with 0
OPAQUE_HOOK = [lambda n, a, args: natural(n, a, args)]
def opaque_map(name, a, args):
    if OPAQUE_HOOK[0] is None: unsup(name, 'of an array of unknown rank')
    return OPAQUE_HOOK[0](name, a, args)

# ---- indexing
def getitem(a, k):
    if isinstance(k, SArr) and k.kind == 'b':
        return mask_select(a, k)
    if isinstance(k, SymArg): return natural('getitem', a, (k,))
    if isinstance(k, SArr):
        if not a.opaque and len(a.axes) == 1 or (a.opaque): return gather(a, k)
        return gather(a, k)
    if a.opaque:
        return opaque_map('getitem', a, (k,))
    if not isinstance(k, tuple): k = (k,)
    k = list(k)
    if any(x is Ellipsis for x in k):
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        n = len(a.axes) - sum(1 for x in k if x is not None and x is not Ellipsis)
        k = k[:p] + [slice(None)] * n + k[p + 1:]
    if sum(1 for x in k if isinstance(x, SArr)) > 0: return adv(a, k)
    axes = []; src = []      # src: per old atom a function of the new index
    ax = 0; new = 0; fns = []
    for x in k + [slice(None)] * (len(a.axes) - sum(1 for x in k if x is not None)):
        if x is None: axes.append(()); continue
        g = a.axes[ax]; ax += 1
        if isinstance(x, slice):
            if x == slice(None):
                axes.append(g); fns += [(lambda i, q=new + q: i[q]) for q in range(len(g))]; new += len(g); continue
            if x.start is None and x.stop is None and x.step == -1:
                axes.append(g); fns += [(lambda i, q=new + q, d=g[q]: d - 1 - i[q]) for q in range(len(g))]; new += len(g); continue
            if x.step in (None, 1):
                n = SymProd(g)
                st = iv(x.start) if x.start is not None else z3.IntVal(0)
                sp = iv(x.stop) if x.stop is not None else n.e
                if lit(st) is not None and lit(st) < 0: st = n.e + st
                if lit(sp) is not None and lit(sp) < 0: sp = n.e + sp
                if lit(sp) is not None and lit(n.e) is not None and lit(sp) > lit(n.e): sp = n.e
                if not (valid(z3.And(0 <= st, st <= sp, sp <= n.e))): unsup('slice bounds')
                ln = z3.simplify(sp - st)
                if lit(st) == 0 and same(ln, n.e): axes.append(g); fns += [(lambda i, q=new + q: i[q]) for q in range(len(g))]; new += len(g); continue
                if len(g) > 1: unsup('slice of a factored axis')
                if not g:
                    if lit(ln) is None: unsup('slice of an axis of length one')
                    axes.append((ln,)); new += 1 if lit(ln) != 1 else 0; continue
                if lit(ln) == 1: axes.append(()); fns.append(lambda i, st=st: st); continue
                axes.append((ln,)); fns.append(lambda i, q=new, st=st: i[q] + st); new += 1; continue
            unsup('slice', x)
        if isinstance(x, (int, SymInt)):
            fl = getattr(x, 'flat', None)
            if len(g) > 1 and fl is not None and len(fl.atoms) == len(g) and all(same(p, q) for p, q in zip(fl.atoms, g)): fns += [(lambda i, e=e: e) for e in fl.idx]; continue
            n = SymProd(g); e = iv(x)
            if lit(e) is not None and lit(e) < 0: e = n.e + e
            if not valid(z3.And(e >= 0, e < n.e)):
                if not ctx().feasible(z3.And(e >= 0, e < n.e)): raise IndexError('index out of bounds')
                unsup('index bounds')
            if len(g) > 1 and lit(e) != 0: unsup('index into a factored axis')
            fns += [(lambda i, e=e: e)] * len(g)
            continue
        unsup('index', x)
    m = lambda i: tuple(f(i) for f in fns)
    old = a.imap
    if not axes: return wrap(a.at(m(())))
    return SArr(tuple(axes), buf=a.buf, imap=(lambda i: old(m(i))) if old else m, mask=a.mask, ro=a.ro, kind=a.kind)
def adv(a, k): unsup('advanced indexing')
def gather(a, k):
    """a[k] along the first axis, k an array of positions"""
    if a.opaque or len(a.axes) != 1: unsup('indexing of a multidimensional array by an array')
    a, k = frozen(a), frozen(k)
    if a.mask is not None: unsup('indexing of a masked selection')
    def f(i):
        v = k.at(i)
        if isinstance(v, Flat) and len(v.atoms) == len(a.atoms) and all(same(x, y) for x, y in zip(v.atoms, a.atoms)): return a.at(v.idx)
        e = ti(v)
        n = SymProd(a.atoms).e
        if len(a.atoms) == 1: return a.at((z3.If(e < 0, e + n, e) if not valid(e >= 0) else e,))
        if len(a.atoms) == 0: return a.at(())
        unsup('gather from a factored axis')
    return SArr(k.axes, f, mask=k.mask, kind=a.kind)
def mask_select(a, m):
    a, m = frozen(a), frozen(m)
    if a.mask is not None: unsup('two masks')
    if len(a.atoms) != len(m.atoms) or not all(same(x, y) for x, y in zip(a.atoms, m.atoms)): unsup('mask of another shape')
    key = (tuple(str(x) for x in a.atoms), maskkey(m))
    return SArr((a.atoms,), a.at, mask=(key, lambda i: tb(m.at(i))), kind=a.kind)
def maskkey(m):
    i = tuple(z3.Int('mk%d' % k) for k in range(len(m.atoms)))
    return z3.simplify(tb(m.at(i))).sexpr()
def setitem(a, k, v):
    if isinstance(k, SArr) and k.kind == 'b':
        k = frozen(k)
        if isinstance(v, SArr):
            if v.atoms != (): unsup('masked assignment of an array')
            v = v.at(())
        v = val(v)
        if not (len(a.atoms) == len(k.atoms) and all(same(x, y) for x, y in zip(a.atoms, k.atoms))): unsup('mask of another shape')
        a._write(lambda old, idx: _ite(tb(k.at(idx)), v, old)); return
    if isinstance(k, tuple) and all(isinstance(x, slice) and x == slice(None) for x in k) or k is Ellipsis or (isinstance(k, slice) and k == slice(None)):
        if isinstance(v, SArr) and v.atoms != ():
            axes, ma, mb = align(a, v)
            vv = frozen(v); a._write(lambda old, idx: vv.at(mb(idx)))
        else:
            v = v.at(()) if isinstance(v, SArr) else val(v); a._write(lambda old, idx: v)
        return
    if isinstance(k, (int, SymInt)) : k = (k,)
    if isinstance(k, tuple) and not a.opaque and len(k) == len(a.axes) and all(isinstance(x, (int, SymInt)) for x in k):
        tgt = []
        for x, g in zip(k, a.axes):
            if len(g) > 1: unsup('assignment into a factored axis')
            e = iv(x); n = SymProd(g).e
            if lit(e) is not None and lit(e) < 0: e = e + n
            if not valid(z3.And(e >= 0, e < n)):
                if not ctx().feasible(z3.And(e >= 0, e < n)): raise IndexError('index out of bounds')
                unsup('index bounds')
            if g: tgt.append(e)
        if isinstance(v, SArr): v = v.at(tuple(z3.IntVal(0) for _ in v.atoms)) if valid(z3.And([z3.BoolVal(True)] + [x == 1 for x in v.atoms])) else unsup('assignment of an array to an entry')
        v = val(v)
        if ctx().user.get('par'): return par_write(a, tgt, v)
        a._write(lambda old, idx: _ite(z3.And([z3.BoolVal(True)] + [i == t for i, t in zip(idx, tgt)]), v, old)); return
    if not isinstance(k, tuple): k = (k,)
    if not a.opaque and len(k) <= len(a.axes) and all(isinstance(x, (int, SymInt, slice)) for x in k):
        conds = []; comp = []; ln = []; pos = 0
        for x, g in zip(list(k) + [slice(None)] * (len(a.axes) - len(k)), a.axes):
            n = SymProd(g)
            if isinstance(x, slice) and x == slice(None): comp += [(lambda i, q=pos + q: i[q]) for q in range(len(g))]; ln += list(g); pos += len(g); continue
            if len(g) > 1: unsup('assignment into a factored axis')
            if isinstance(x, slice):
                if x.step not in (None, 1): unsup('assignment to', x)
                st = iv(x.start) if x.start is not None else z3.IntVal(0); sp = iv(x.stop) if x.stop is not None else n.e
                if not valid(z3.And(0 <= st, st <= sp, sp <= n.e)): unsup('slice bounds')
                if g:
                    conds.append(lambda i, q=pos, st=st, sp=sp: z3.And(i[q] >= st, i[q] < sp))
                    if lit(sp - st) != 1: comp.append(lambda i, q=pos, st=st: i[q] - st); ln.append(z3.simplify(sp - st))
                elif not (lit(st) == 0 and lit(sp) == 1): unsup('slice bounds')
            else:
                e = iv(x)
                if lit(e) is not None and lit(e) < 0: e = e + n.e
                if not valid(z3.And(e >= 0, e < n.e)): unsup('index bounds')
                if g: conds.append(lambda i, q=pos, e=e: i[q] == e)
            pos += len(g)
        if isinstance(v, SArr) and v.atoms:
            if len(v.atoms) != len(ln) or not all(same(x, y) for x, y in zip(v.atoms, ln)): unsup('assignment with broadcasting')
            vv = frozen(v); src = lambda i: vv.at(tuple(f(i) for f in comp))
        else:
            w = v.at(()) if isinstance(v, SArr) else val(v); src = lambda i: w
        def wr(old, idx):
            c = z3.And([z3.BoolVal(True)] + [f(idx) for f in conds])
            if valid(c): return src(idx)
            return _ite(c, src(idx), old)
        a._write(wr); return
    unsup('assignment to', k)

# ---- loops over symbolic ranges whose iterations are independent: the body runs once, for a generic index
def par_write(a, tgt, v):
    c = ctx(); par = c.user['par']
    if a.ro or a.buf.ro: raise ValueError('assignment destination is read-only')
    if a.imap is not None: unsup('writing through a rearranged view')
    if id(a.buf) in c.user.get('par_read', ()): unsup('writing an array that the loop reads')
    if isinstance(v, (SumV, SumList, Flat)): unsup('value assigned in a loop')
    v = tr(v); rng = z3.And([r for _, r in par])
    P = [x for x, _ in par]
    slots = {}
    for x in P:
        q = [k for k, t in enumerate(tgt) if t.eq(x)]
        if not q: unsup('a loop index that does not select the entry assigned')
        slots[x.get_id()] = q[0]
    hidden = [x for x in P]
    def parts(idx):
        sub = [(x, idx[slots[x.get_id()]]) for x in P]
        return z3.And([z3.substitute(rng, *sub)] + [i == z3.substitute(t, *sub) for i, t in zip(idx, tgt)]), z3.substitute(v, *sub)
    w = c.user.setdefault('par_written', {}); prev = w.setdefault(id(a.buf), [a.buf])
    g = tuple(z3.Int(c.fresh('cell')) for _ in tgt)
    s = z3.Solver(); s.set('timeout', 3000)
    for p in c.user['par_pc']: s.add(p)
    for q in prev[1:]:
        if s.check(z3.And(q(g)[0], parts(g)[0])) != z3.unsat: unsup('entries assigned twice in a loop')
    prev.append(parts)
    old = a.buf.fn
    def fn(idx):
        cd, x = parts(idx); return _ite(cd, x, old(idx))
    a.buf.fn = fn
class ParRange(load.SymIter):
    __symbolic__ = True
    def __init__(self, *a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) == 3 and a[2] != 1: unsup('range with a step')
        self.lo, self.hi = lo, hi
    def __symlen__(self): return self.hi - self.lo
    def enter(self):
        c = ctx()
        if c.unsupported: raise Unsupported(c.unsupported)
        if not c.user.get('par'): c.user['par_pc'] = list(c.pc); c.user['par_read'] = {}; c.user['par_written'] = {}
        at = self.hi.atoms if isinstance(self.hi, SymProd) and isinstance(self.lo, int) and self.lo == 0 and self.hi.mask is None else None
        c._solver.push(); state = (len(c.pc), len(c.user.get('par', [])))
        par = c.user.setdefault('par', [])
        if at is not None and len(at) > 1:
            vs = tuple(z3.Int(c.fresh('it')) for _ in at)
            for x, d in zip(vs, at): r = z3.And(x >= 0, x < d); par.append((x, r)); c.assume(r)
            return FlatInt(at, vs), vs, at, state
        v = z3.Int(c.fresh('it')); r = z3.And(v >= iv(self.lo), v < iv(self.hi)); par.append((v, r)); c.assume(r)
        return SymInt(v), (v,), at if at is not None else None, state
    def leave(self, state):
        c = ctx(); c._solver.pop(); del c.pc[state[0]:]; del c.user['par'][state[1]:]
    def sym_loop(self, qual):
        if load.CARRIED.get(qual): unsup('a loop over a symbolic range carries', load.CARRIED[qual])
        if not load.PARALLEL.get(qual): unsup('a loop over a symbolic range with other effects')
        c = ctx()
        if not c.feasible(iv(self.lo) < iv(self.hi)): return
        v, vs, at, st = self.enter()
        done = False
        try:
            yield v
            done = True
        finally:
            if not done: c.unsupported = c.unsupported or 'leaving a loop over a symbolic range'
        self.leave(st)
    def sym_map(self, f, cond):
        if cond is not None: unsup('a filtered comprehension over a symbolic range')
        v, vs, at, st = self.enter()
        x = f(v)
        if not isinstance(x, SArr): x = asarr(x)
        x = frozen(x)
        self.leave(st)
        if not (isinstance(self.lo, int) and self.lo == 0): unsup('comprehension over a range not starting at 0')
        return SymList(vs, at if at is not None else (iv(self.hi),), x)
    def __iter__(self): unsup('iteration over a symbolic range')
class FlatInt(SymInt):
    def __init__(self, atoms, idx): self.flat = Flat(atoms, idx); SymInt.__init__(self, self.flat.poly())
class SymList(object):
    """[f(k) for k in range(n)]"""
    __symbolic__ = True
    def __init__(self, vs, atoms, x): self.vs, self.atoms_, self.x = vs, tuple(a for a in atoms), x
    def at(self, t, idx):
        e = self.x.at(idx)
        return subst(e, list(zip(self.vs, t)))
    def __iter__(self): unsup('iteration over a list of symbolic length')
    def __symarr__(self): return SArr((self.atoms_,) + self.x.axes, lambda i: self.at(i[:len(self.vs)], i[len(self.vs):]), kind=self.x.kind)
def subst(e, sub):
    if not sub: return e
    if isinstance(e, Flat): return Flat([z3.substitute(a, *sub) for a in e.atoms], [z3.substitute(x, *sub) for x in e.idx])
    if isinstance(e, SumV): return SumV(e.vs, e.dims, subst(tr(e.body), sub))
    if isinstance(e, SumList): return SumList([subst(p, sub) for p in e.ps])
    if isinstance(e, (SymReal, SymInt, SymBool)): e = e.e
    return z3.substitute(e, *sub) if z3.is_expr(e) else e
def np_dstack(xs):
    if isinstance(xs, SymList):
        x = xs.x
        if x.opaque or len(x.axes) != 2: unsup('dstack')
        n = len(x.atoms)
        return SArr(x.axes + (xs.atoms_,), lambda i: xs.at(i[n:], i[:n]), kind=x.kind)
    return np_concatenate([np_atleast_3d(x) for x in xs], 2)
load.HOOKS['range'] = ParRange
def _ite(c, x, y):
    c = z3.simplify(c)
    if z3.is_true(c): return x
    if z3.is_false(c): return y
    if isinstance(x, (SumV, SumList)) or isinstance(y, (SumV, SumList)): unsup('conditional sum')
    if isbool(x) and isbool(y): return z3.If(c, tb(x), tb(y))
    if isint(x) and isint(y): return z3.If(c, ti(x), ti(y))
    return z3.If(c, tr(x), tr(y))

# ---- sorting: contract: sort(a) = take_along_axis(a, argsort(a))
def sortsel(a, args):
    i = z3.Int('srt'); key = (z3.simplify(tr(a.at((i,)))).sexpr(), str(a.axes.e), tuple(str(argterm(x)) for x in args))
    d = ctx().user.setdefault('sort', {})
    if key not in d: d[key] = z3.Function('sortsel%d' % len(d), z3.IntSort(), z3.IntSort())
    f = d[key]; n = a.axes.size()
    def sel(j):
        ctx().assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(f(j) >= 0, f(j) < n))); return f(j)
    return sel
def _sargs(axis=-1, kind=None, order=None, **k): return (axis, kind, order)
def np_sort(a, *r, **k):
    a = frozen(asarr(a))
    if not a.opaque: unsup('sort of an explicit shape')
    s = sortsel(a, _sargs(*r, **k)); return SArr(a.axes, lambda i: a.at((s(i[0]),)), kind=a.kind)
def np_argsort(a, *r, **k):
    a = frozen(asarr(a))
    if not a.opaque:
        if len(a.axes) != 1 or _sargs(*r, **k)[0] not in (-1, 0) or a.mask is not None: unsup('argsort of an explicit shape')
        x = fresh_idx(a.atoms); v = a.at(x)
        if not (isinstance(v, Flat) and len(v.idx) == len(x) and all(any(p.eq(q) for q in v.idx) for p in x)): unsup('argsort of an explicit shape')
        # positions, all different: the inverse permutation
        inv = [next(n for n, q in enumerate(v.idx) if q.eq(p)) for p in x]
        if not all(same(a.atoms[n], v.atoms[q]) for n, q in enumerate(inv)): unsup('argsort of an explicit shape')
        return SArr((v.atoms,), lambda i: Flat(a.atoms, tuple(i[q] for q in inv)), kind='i')
    o = SArr(a.axes, lambda i: unsup('entry of an argsort'), kind='i'); o.along = (_sargs(*r, **k)[0], sortsel(a, _sargs(*r, **k))); return o
def np_take_along_axis(b, o, axis):
    b = frozen(asarr(b)); al = getattr(o, 'along', None)
    if al is None or not b.opaque: unsup('take_along_axis')
    if not ((al[0] is axis) or valid(argterm(al[0]) == argterm(axis))): unsup('take_along_axis along another axis')
    if not (b.axes == o.axes): unsup('take_along_axis of another shape')
    return SArr(b.axes, lambda i: b.at((al[1](i[0]),)), kind=b.kind)

# ---- creation
def shape_axes(s):
    """-> axes, mask"""
    if isinstance(s, OShape): return s, None
    if isinstance(s, SArr): s = [s[k] for k in range(len(s))] if s.axes else s.scalar()
    if isinstance(s, (int, SymInt, float)):
        a, m = atoms_of(s); return (tuple(a),), m
    s = list(s)
    if len(s) == 1 and isinstance(s[0], Splice): return s[0].s, None
    if any(isinstance(n, Splice) for n in s): unsup('shape with an opaque part')
    r = [atoms_of(n) for n in s]
    if any(m is not None for _, m in r): return ((tuple(r[0][0]),), r[0][1]) if len(r) == 1 else unsup('masked size in a shape')
    return tuple(tuple(a) for a, _ in r), None
def const(s, v, kind='f'):
    ax, m = shape_axes(s); return SArr(ax, lambda i: v, mask=m, kind=kind)
def _isf(dt): return dt is None or dt is float or dt is stubs.Float64
def np_ones(s, dtype=None, order='C'): return const(s, rv(1), 'f') if _isf(dtype) else const(s, z3.IntVal(1), 'i')
def np_zeros(s, dtype=None, order='C'): return const(s, rv(0), 'f') if _isf(dtype) else const(s, z3.IntVal(0), 'i')
def np_full(s, v, dtype=None): return const(s, val(v), kindof(v))
def np_empty(s, dtype=None, order='C'):
    ax, m = shape_axes(s); n = len((ax.size(),) if isinstance(ax, OShape) else [a for g in ax for a in g])
    f = z3.Function(ctx().fresh('garbage'), *([z3.IntSort()] * n + [R]))
    return SArr(ax, lambda i: f(*i) if n else z3.Const(str(f), R), mask=m)
def np_ones_like(a, dtype=None):
    a = asarr(a)
    return SArr(a.axes, lambda i: (z3.IntVal(1) if a.kind == 'i' and dtype is None else rv(1)), mask=a.mask, kind='f' if _isf(dtype) and (dtype is not None or a.kind == 'f') else a.kind)
def np_zeros_like(a, dtype=None):
    a = asarr(a)
    return SArr(a.axes, lambda i: (z3.IntVal(0) if a.kind == 'i' and dtype is None else rv(0)), mask=a.mask, kind='f' if _isf(dtype) and (dtype is not None or a.kind == 'f') else a.kind)
def np_arange(*a, **k):
    dt = k.get('dtype')
    if len(a) == 1: lo, n = 0, a[0]
    elif len(a) == 2:
        lo, n = a[0], a[1] - a[0]
        if isinstance(lo, int) and isinstance(a[1], SymInt) and getattr(a[1], 'plus', None) and a[1].plus[1] == lo: n = a[1].plus[0]
    else: unsup('arange with a step')
    at, m = atoms_of(n)
    if m is not None: unsup('positions of a masked selection')
    if isinstance(lo, int) and lo == 0: f = lambda i: Flat(at, i)
    else: f = lambda i: Flat(at, i).poly() + iv(lo)
    return SArr((tuple(at),), f, kind='i')
def np_asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, SArr) or hasattr(type(x), '__symarr__') or isinstance(x, (int, float, SymInt, SymReal, list, tuple, bool, SymBool)): a = asarr(x)
    elif hasattr(type(x), 'compute_r'): a = x.r
    else: unsup('asarray of', type(x).__name__)
    if dtype is not None and not _isf(dtype) and a.kind == 'f':
        # conversion to integers: only of entries that are positions
        j = tuple(z3.Int(ctx().fresh('p')) for _ in a.atoms); v = a.at(j)
        if isint(v): r = frozen(a); r.kind = 'i'; return r
        unsup('conversion of real entries to integers')
    if _isf(dtype) and dtype is not None and a.kind != 'f':
        b = frozen(a); return SArr(b.axes, lambda i: tr(b.at(i)), mask=b.mask, kind='f')
    return a
def np_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    a = np_asarray(x, dtype); return frozen(a)
def np_atleast_1d(*xs):
    if len(xs) != 1: return [np_atleast_1d(x) for x in xs]
    h = getattr(type(xs[0]), '__sym_atleast_1d__', None)
    if h: return h(xs[0])
    a = asarr(xs[0])
    return a if a.opaque or a.axes else a.with_axes(((),))
def np_atleast_2d(*xs):
    if len(xs) != 1: return [np_atleast_2d(x) for x in xs]
    x = xs[0]
    if isinstance(x, SMat): return x
    a = asarr(x)
    if a.opaque:
        r = opaque_map('atleast_2d', a, ()); r.two_d = True; return r
    if len(a.axes) == 0: return a.with_axes(((), ()))
    if len(a.axes) == 1: return a.with_axes(((), a.axes[0]))
    return a
def np_atleast_3d(x):
    a = asarr(x)
    if a.opaque: return opaque_map('atleast_3d', a, ())
    if len(a.axes) == 0: return a.with_axes(((), (), ()))
    if len(a.axes) == 1: return a.with_axes(((), a.axes[0], ()))
    if len(a.axes) == 2: return a.with_axes((a.axes[0], a.axes[1], ()))
    return a
def np_eye(n, m=None, dtype=None, **k):
    a, _ = atoms_of(n); b, _ = atoms_of(m) if m is not None else (a, None)
    return SArr((tuple(a), tuple(b)), lambda i: z3.If(idx_eq(a, i[:len(a)], b, i[len(a):]), rv(1), rv(0)))
def idx_eq(a, i, b, j):
    if len(a) == len(b): return z3.And([z3.BoolVal(True)] + [x == y for x, y in zip(i, j)])
    return Flat(a, i).poly() == Flat(b, j).poly()
class Broadcast(object):
    def __init__(self, *xs):
        r = asarr(xs[0])
        for x in xs[1:]: r = ufunc2(lambda a, b: rv(0), r, asarr(x))
        self.shape = r.shape; self.size = r.size; self.nd = self.ndim = r.ndim; self.arr = r
def np_broadcast_to(a, s):
    a = asarr(a); t = const(s, rv(0))
    return ufunc2(lambda x, y: y, t, a)
def np_broadcast_arrays(*xs):
    b = Broadcast(*xs)
    return [ufunc2(lambda x, y: y, b.arr, asarr(x)) for x in xs]
def np_prod(x, *a, **k):
    if isinstance(x, OShape): return SymProd((x.size(),))
    if isinstance(x, SArr): x = [x[i] for i in range(len(x))]
    x = list(x)
    if all(isinstance(n, int) for n in x):
        r = 1
        for n in x: r *= n
        return r
    r = SymProd(())
    for n in x:
        if isinstance(n, Splice): n = SymProd((n.s.size(),))
        if not isinstance(n, (int, SymInt)): unsup('prod')
        r = r * n
    return r
def np_shape(a): return asarr(a).shape
def np_ndim(a): return asarr(a).ndim if not hasattr(type(a), 'compute_r') else a.ndim
def np_size(a): return asarr(a).size

# ---- repetition
def np_tile(a, reps):
    a = asarr(a)
    if a.opaque: return opaque_map('tile', a, (reps,))
    if isinstance(reps, SArr): reps = [reps[k] for k in range(len(reps))] if reps.axes else [reps.scalar()]
    elif isinstance(reps, (int, SymInt)): reps = [reps]
    reps = list(reps); n = max(len(reps), len(a.axes))
    reps = [1] * (n - len(reps)) + reps; A = ((),) * (n - len(a.axes)) + a.axes
    a = frozen(a); axes = []; keep = []; pos = 0
    for r, g in zip(reps, A):
        ra, _ = atoms_of(r); axes.append(tuple(ra) + tuple(g)); pos += len(ra)
        keep += list(range(pos, pos + len(g))); pos += len(g)
    return SArr(tuple(axes), lambda i: a.at(tuple(i[k] for k in keep)), kind=a.kind)
def np_repeat(a, n, axis=None):
    a = asarr(a)
    if a.opaque: return opaque_map('repeat', a, (n, axis))
    if axis is None: a = a.ravel(); axis = 0
    if not isinstance(n, (int, SymInt)): unsup('repeat counts')
    axis = normaxis(axis, len(a.axes)); ra, _ = atoms_of(n); a = frozen(a)
    axes = []; keep = []; pos = 0
    for k, g in enumerate(a.axes):
        keep += list(range(pos, pos + len(g))); pos += len(g)
        if k == axis: axes.append(tuple(g) + tuple(ra)); pos += len(ra)
        else: axes.append(tuple(g))
    return SArr(tuple(axes), lambda i: a.at(tuple(i[k] for k in keep)), kind=a.kind)

# ---- reductions
def fresh_idx(atoms, base='k'): return tuple(z3.Int(ctx().fresh(base)) for _ in atoms)
def np_sum(a, axis=None, **k):
    if k and any(v not in (None, False) for v in k.values()): unsup('sum options')
    a = frozen(asarr(a))
    def tot(vs, dims, body):
        if isinstance(body, SumV): return SumV(tuple(vs) + tuple(body.vs), tuple(dims) + tuple(body.dims), body.body)
        if isinstance(body, SumList): unsup('sum of sums')
        return SumV(tuple(vs), tuple(dims), tr(body))
    if axis is None:
        if a.mask is not None: unsup('sum of a masked selection')
        def f(i):
            v = fresh_idx(a.atoms); return tot(v, a.atoms, a.at(v))
        return SArr((), f)
    if a.opaque: return opaque_map('sum', a, (axis,))
    if isinstance(axis, tuple): unsup('sum over several axes')
    n = len(a.axes); axis = normaxis(axis, n)
    g = a.axes[axis]; p = sum_len(a.axes[:axis])
    def f(i):
        v = fresh_idx(g); return tot(v, g, a.at(tuple(i[:p]) + v + tuple(i[p:])))
    return SArr(a.axes[:axis] + a.axes[axis + 1:], f)
def sum_len(gs): return __builtins__['sum'](len(g) for g in gs) if isinstance(__builtins__, dict) else __builtins__.sum(len(g) for g in gs)
def np_mean(a, axis=None, **k):
    a = asarr(a)
    s = np_sum(a, axis)
    n = a.size if axis is None else a.shape[axis]
    return ufunc2(f_div, s, n if isinstance(n, SymInt) else n)
def np_cumsum(a, axis=None, **k):
    a = asarr(a)
    if axis is None: a = a.ravel(); axis = 0
    a = frozen(a)
    if a.opaque: unsup('cumsum')
    axis = normaxis(axis, len(a.axes)); g = a.axes[axis]; p = sum_len(a.axes[:axis])
    def f(i):
        v = fresh_idx(g)
        le = Flat(g, v).poly() <= Flat(g, i[p:p + len(g)]).poly()
        return SumV(v, g, z3.If(le, tr(a.at(tuple(i[:p]) + v + tuple(i[p + len(g):]))), rv(0)))
    return SArr(a.axes, f)
def np_dot(a, b):
    if isinstance(b, SMat) or isinstance(a, SMat): unsup('product with a sparse matrix')
    a, b = frozen(asarr(a)), frozen(asarr(b))
    if a.opaque or b.opaque: unsup('product of arrays of unknown rank')
    if not a.axes or not b.axes: return ufunc2(f_mul, a, b)
    ga = a.axes[-1]; kb = -1 if len(b.axes) == 1 else len(b.axes) - 2
    gb = b.axes[kb]
    ok = len(ga) == len(gb) and all(same(x, y) for x, y in zip(ga, gb))
    if not ok:
        if valid(SymProd(ga).e == SymProd(gb).e): unsup('product over axes with different factorisations')
        if ctx().feasible(SymProd(ga).e == SymProd(gb).e): unsup('product of axes that may differ')
        raise ValueError('shapes not aligned')
    na = sum_len(a.axes[:-1]); kb = kb % len(b.axes); pb = sum_len(b.axes[:kb])
    bx = b.axes[:kb] + b.axes[kb + 1:]
    def f(i):
        v = fresh_idx(ga)
        x = a.at(tuple(i[:na]) + v); j = tuple(i[na:]); y = b.at(j[:pb] + v + j[pb:])
        body = f_mul(x, y)
        if isinstance(body, SumV): return SumV(tuple(body.vs) + v, tuple(body.dims) + tuple(ga), body.body)
        if not v: return tr(body)
        return SumV(v, ga, tr(body))
    return SArr(a.axes[:-1] + bx, f)
EXT = {}
def _arg_ext(which):
    """contract: f(a, axis) is a's entry at the position arg f(a, axis) along the axis; arg f is within range"""
    def argf(a, axis=None):
        a = frozen(asarr(a))
        if axis is None: a = a.ravel(); axis = 0
        if a.opaque: unsup(which)
        axis = normaxis(axis, len(a.axes)); g = a.axes[axis]; p = sum_len(a.axes[:axis])
        rest = a.axes[:axis] + a.axes[axis + 1:]
        k = argfun(which, a, axis)
        def f(i):
            if not g: return z3.IntVal(0)
            v = k(*i) if i else k()
            n = SymProd(g).e; c = ctx(); c.assume(z3.Implies(z3.And([z3.BoolVal(True)] + [z3.And(x >= 0, x < d) for x, d in zip(i, [y for q in rest for y in q])]), z3.And(v >= 0, v < n)))
            return v
        return SArr(rest, f, kind='i') if rest else wrap(f(()))
    return argf
def argfun(which, a, axis):
    """the arg function of this array (same entries: same function)"""
    i = tuple(z3.Int('ax%d' % k) for k in range(len(a.atoms)))
    key = (which, axis, tuple(len(g) for g in a.axes), z3.simplify(tr(a.at(i))).sexpr())
    d = ctx().user.setdefault('argfun', {})
    if key not in d:
        n = len(a.atoms) - len(a.axes[axis])
        d[key] = z3.Function('%s%d' % (which, len(d)), *([z3.IntSort()] * (n + 1))) if n else (lambda c=z3.Int('%s%d' % (which, len(d))): c)
    return d[key]
def _ext(which):
    argf = _arg_ext('arg' + which)
    def fx(a, axis=None, **kw):
        a = frozen(asarr(a))
        if axis is None: a = a.ravel(); axis = 0
        if a.opaque: unsup(which)
        axis = normaxis(axis, len(a.axes)); g = a.axes[axis]; p = sum_len(a.axes[:axis])
        if a.kind == 'i' and which == 'min':
            # the smallest position along an axis is the one with coordinate 0
            j = fresh_idx(a.atoms); v = a.at(j)
            if isinstance(v, Flat) and all(any(x.eq(y) for x in v.idx) for y in j):
                return SArr(a.axes[:axis] + a.axes[axis + 1:], lambda i: a.at(tuple(i[:p]) + tuple(z3.IntVal(0) for _ in g) + tuple(i[p:])), kind='i')
            unsup('min of integers')
        if a.kind == 'i': unsup('max of integers')
        if len(g) > 1:
            # argmax over all entries: position in row-major order
            k = argfun('arg' + which, a, axis)
            def f(i):
                q = ctx().user.setdefault('argsplit', {}); key = str(k(*i))
                if key not in q:
                    v = fresh_idx(g, 'arg'); q[key] = v
                    ctx().assume(z3.And([z3.And(x >= 0, x < d) for x, d in zip(v, g)] + [Flat(g, v).poly() == k(*i)]))
                return a.at(tuple(i[:p]) + q[key] + tuple(i[p:]))
            return SArr(a.axes[:axis] + a.axes[axis + 1:], f)
        kk = argf(a, axis)
        if not isinstance(kk, SArr): kk = asarr(kk)
        return SArr(a.axes[:axis] + a.axes[axis + 1:], lambda i: a.at(tuple(i[:p]) + ((ti(kk.at(i)),) if g else ()) + tuple(i[p:])))
    return fx, argf
np_amax, np_argmax = _ext('max'); np_amin, np_argmin = _ext('min')
np_nanmax, np_nanargmax = np_amax, np_argmax; np_nanmin, np_nanargmin = np_amin, np_argmin   # finite entries

def np_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None: axisa = axisb = axisc = axis
    a, b = frozen(asarr(a)), frozen(asarr(b))
    if a.opaque or b.opaque: unsup('cross of unknown rank')
    a = np_moveaxis(a, axisa, -1); b = np_moveaxis(b, axisb, -1)
    def comp(x, k): return x[(Ellipsis, k)]
    if lit(SymProd(a.axes[-1]).e) != 3 or lit(SymProd(b.axes[-1]).e) != 3: unsup('cross of vectors of length other than 3')
    c = [ufunc2(f_sub, ufunc2(f_mul, comp(a, p), comp(b, q)), ufunc2(f_mul, comp(a, q), comp(b, p))) for p, q in ((1, 2), (2, 0), (0, 1))]
    c = [asarr(x) for x in c]
    r = stack0(c)
    return np_moveaxis(r, 0, axisc)
def np_kron(a, b):
    a, b = frozen(asarr(a)), frozen(asarr(b))
    n = max(len(a.axes), len(b.axes))
    A = ((),) * (n - len(a.axes)) + a.axes; B = ((),) * (n - len(b.axes)) + b.axes
    axes = tuple(x + y for x, y in zip(A, B))
    ka = []; kb = []; pos = 0
    for x, y in zip(A, B):
        ka += range(pos, pos + len(x)); pos += len(x); kb += range(pos, pos + len(y)); pos += len(y)
    return SArr(axes, lambda i: f_mul(a.at(tuple(i[k] for k in ka)), b.at(tuple(i[k] for k in kb))))
def np_concatenate(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    if len(xs) == 1: return frozen(xs[0])
    if any(isinstance(x, Blocks) for x in xs) and all(not x.opaque and len(x.axes) == 1 for x in xs): xs = [y for x in xs for y in (x.blocks if isinstance(x, Blocks) else [frozen(x)])]
    if all(not x.opaque and len(x.axes) == 1 for x in xs) and any(len(x.atoms) > 1 or x.mask is not None or isinstance(x, Blocks) for x in xs) or any(isinstance(x, Blocks) for x in xs):
        return Blocks([y for x in xs for y in (x.blocks if isinstance(x, Blocks) else [frozen(x)])])
    if any(x.opaque for x in xs): unsup('concatenation of arrays of unknown rank')
    n = len(xs[0].axes); axis = normaxis(axis, n)
    blocks = n == 1
    if any(len(x.axes) != n for x in xs): raise ValueError('all the input array dimensions must match')
    for x in xs[1:]:
        for q in range(n):
            if q != axis and not same(SymProd(x.axes[q]).e, SymProd(xs[0].axes[q]).e): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
            if q != axis and len(x.axes[q]) != len(xs[0].axes[q]): unsup('factorisations differ')
    if any(len(x.axes[axis]) > 1 for x in xs): unsup('concatenation along a factored axis')
    xs = [frozen(x) for x in xs]; sizes = [SymProd(x.axes[axis]).e for x in xs]; tot = sizes[0]
    for s in sizes[1:]: tot = tot + s
    p = sum_len(xs[0].axes[:axis])
    def f(i):
        k = i[p]; off = z3.IntVal(0); vs = []
        for x, s in zip(xs, sizes): vs.append((off, x.at(tuple(i[:p]) + ((k - off,) if x.axes[axis] else ()) + tuple(i[p + 1:])))); off = off + s
        conv = tb if all(isbool(v) for _, v in vs) else ti if all(isint(v) for _, v in vs) else tr
        r = conv(vs[-1][1])
        for q in range(len(vs) - 2, -1, -1): r = z3.If(k < vs[q + 1][0], conv(vs[q][1]), r)
        return z3.simplify(r)
    if blocks: return Blocks(xs, f)
    return SArr(xs[0].axes[:axis] + ((z3.simplify(tot),),) + xs[0].axes[axis + 1:], f, kind=kindof(*xs))
class Blocks(SArr):
    """concatenation of one-dimensional pieces, kept apart"""
    def __init__(self, blocks, f=None):
        self.blocks = blocks; tot = SymProd(blocks[0].atoms).e
        for b in blocks[1:]: tot = tot + SymProd(b.atoms).e
        SArr.__init__(self, ((z3.simplify(tot),),), f or (lambda i: unsup('entry of a concatenation')), kind=kindof(*blocks))
    def ravel(self, order='C'): return self
    def reshape(self, *a): return self if a in ((-1,), ((-1,),)) else unsup('reshape of a concatenation')
def np_vstack(xs):
    xs = [np_atleast_2d(x) for x in xs]
    if all(len(x.axes) == 2 and not x.axes[0] for x in xs):   # rows
        return rows_of(xs)
    return np_concatenate(xs, 0)
def rows_of(xs):
    xs = [frozen(x) for x in xs]
    return RowStack(xs)
class RowStack(SArr):
    def __init__(self, xs):
        self.rows = xs; a0 = xs[0]
        SArr.__init__(self, ((z3.IntVal(len(xs)),) if len(xs) > 1 else (), a0.axes[1]), lambda i: ite_chain(i[0], [x.at(i[1:]) for x in xs]) if len(xs) > 1 else a0.at(i), kind=kindof(*xs))
    def __getitem__(self, k):
        if isinstance(k, int): return self.rows[k].with_axes((self.rows[k].axes[1],))
        return SArr.__getitem__(self, k)
    def __iter__(self): return iter([self[k] for k in range(len(self.rows))])
def np_hstack(xs):
    xs = [asarr(x) for x in xs]; return np_concatenate(xs, 0 if len(xs[0].axes) <= 1 else 1)
def np_nonzero(a):
    a = frozen(asarr(a))
    if len(a.axes) != 1: unsup('nonzero')
    key = (tuple(str(x) for x in a.atoms), maskkey(SArr(a.axes, lambda i: tb(a.at(i)), kind='b')))
    return (SArr((a.atoms,), lambda i: Flat(a.atoms, i), mask=(key, lambda i: tb(a.at(i))), kind='i'),)
def np_where(c, x=None, y=None):
    if x is None: return np_nonzero(c)
    c, x, y = asarr(c), asarr(x), asarr(y)
    t = ufunc2(lambda p, q: (p, q), x, y)
    return ufunc2(lambda p, q: _ite(tb(p), q[0], q[1]), c, t, kind=kindof(x, y))
def np_take(a, idx, axis=None):
    a = asarr(a)
    if axis is None: return gather(a.ravel(), asarr(idx))
    unsup('take along an axis')
def np_einsum(spec, *ops):
    """sum over the repeated letters"""
    if '->' not in spec or '.' in spec: unsup('einsum', spec)
    ins, out = spec.replace(' ', '').split('->'); ins = ins.split(',')
    ops = [frozen(asarr(o)) for o in ops]
    ax = {}
    for s, o in zip(ins, ops):
        if o.opaque or len(o.axes) != len(s): unsup('einsum')
        for ch, g in zip(s, o.axes):
            if ch in ax:
                if not (len(g) == len(ax[ch]) and all(same(x, y) for x, y in zip(g, ax[ch]))): unsup('einsum axes')
            else: ax[ch] = g
    summed = [ch for ch in ax if ch not in out]
    def f(i):
        env = {}; p = 0
        for ch in out: env[ch] = tuple(i[p:p + len(ax[ch])]); p += len(ax[ch])
        vs = (); ds = ()
        for ch in summed: v = fresh_idx(ax[ch]); env[ch] = v; vs += v; ds += tuple(ax[ch])
        r = rv(1)
        for s, o in zip(ins, ops): r = r * tr(o.at(tuple(x for ch in s for x in env[ch])))
        return SumV(vs, ds, r) if vs else r
    return SArr(tuple(ax[ch] for ch in out), f)

# ------------------------------------------------------------------ sparse matrices
class Tri(object):
    """triples over a domain of indices: value(t) at (row(t), col(t))"""
    def __init__(self, atoms, mask, row, col, data): self.atoms, self.mask, self.row, self.col, self.data = tuple(atoms), mask, row, col, data
class SMat(object):
    """rows x cols (atoms), a list of summands: Tri, or a closed form entry(i, j) -> list of (condition, value)"""
    __symbolic__ = True
    def __init__(self, rows, cols, parts, order=None):
        self.ra = tuple(a for a in map(iv, rows) if lit(a) != 1); self.ca = tuple(a for a in map(iv, cols) if lit(a) != 1); self.parts = parts; self.order = order
        self._d = None; self.ro = False
    @property
    def shape(self):
        def s(a):
            p = SymProd(a); v = lit(p.e); return v if v is not None else p
        return (s(self.ra), s(self.ca))
    ndim = 2
    @property
    def nnz(self): return self.data.size
    @property
    def size(self): return self.nnz
    # ---- stored entries, in storage order
    @property
    def data(self):
        if self._d is not None: return self._d
        if len(self.parts) != 1 or not isinstance(self.parts[0], Tri): unsup('stored entries of a composed matrix')
        t = self.parts[0]
        if self.order is None: self.order = storage_order(t)
        sg, inv = self.order
        self._d = SArr((t.atoms,), (lambda p: t.data(p)) if sg is None else (lambda p: t.data(sg(p))), mask=t.mask)
        return self._d
    @data.setter
    def data(self, v):
        if len(self.parts) != 1 or not isinstance(self.parts[0], Tri): unsup('stored entries of a composed matrix')
        if self.order is None: self.order = storage_order(self.parts[0])
        self._d = asarr(v)
    def tri(self):
        """parts with assigned data applied"""
        if self._d is None: return self.parts
        t = self.parts[0]; d = frozen(self._d); sg, inv = self.order
        if len(d.atoms) != len(t.atoms) or not all(same(x, y) for x, y in zip(d.atoms, t.atoms)): unsup('assigned data of another length')
        return [Tri(t.atoms, t.mask, t.row, t.col, (lambda i: d.at(i)) if inv is None else (lambda i: d.at(inv(i))))]
    def __copy__(self):
        # a shallow copy shares the stored entries
        if self._d is None and len(self.parts) == 1 and isinstance(self.parts[0], Tri): self.data
        m = SMat(self.ra, self.ca, self.parts, self.order); m._d = self._d; return m
    def copy(self):
        m = SMat(self.ra, self.ca, self.tri(), self.order); m.order = self.order
        if self._d is not None: m._d = frozen(self._d); m.parts = self.parts
        return m
    def tocsc(self, *a, **k): return self.copy() if False else self
    tocsr = tocsc; tocoo = tocsc; asformat = tocsc
    def astype(self, *a): return self
    def toarray(self): 
        ps = [self]
        n = len(self.ra)
        return SArr((self.ra, self.ca), lambda i: total(self.entry(i[:n], i[n:])))
    todense = toarray
    A = property(lambda self: self.toarray())
    @property
    def T(self):
        out = []
        for p in self.tri():
            if isinstance(p, Tri): out.append(Tri(p.atoms, p.mask, p.col, p.row, p.data))
            else: out.append(lambda i, j, p=p: p(j, i))
        return SMat(self.ca, self.ra, out)
    def transpose(self): return self.T
    def _scale(self, s):
        s = val(s); out = []
        for p in self.tri():
            if isinstance(p, Tri): out.append(Tri(p.atoms, p.mask, p.row, p.col, lambda i, p=p: f_mul(p.data(i), s)))
            else: out.append(lambda i, j, p=p: [(t[0], f_mul(t[1], s)) for t in p(i, j)])
        return SMat(self.ra, self.ca, out)
    def __mul__(self, o):
        if isinstance(o, (int, float, SymReal, SymInt)): return self._scale(o)
        unsup('product of sparse matrices')
    __rmul__ = __mul__
    def __neg__(self): return self._scale(-1)
    def __truediv__(self, o):
        if isinstance(o, (int, float)): return self._scale(Fraction(1) / Fraction(o) if False else 1. / o)
        if isinstance(o, (SymInt, SymReal)): return self._scale(SymReal(rv(1) / tr(o)))
        unsup('quotient')
    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0: return self
        o = asmat(o)
        if not (SymProd(self.ra)._same(SymProd(o.ra)) or valid(SymProd(self.ra).e == SymProd(o.ra).e)): raise ValueError('inconsistent shapes')
        return SMat(self.ra, self.ca, self.tri() + o.tri())
    def __radd__(self, o): return self.__add__(o)
    def __sub__(self, o): return self.__add__(asmat(o)._scale(-1))
    def dot(self, o):
        if isinstance(o, SArr) and not o.opaque and len(o.axes) == 2 and not o.axes[1] and not any(isinstance(p, Tri) for p in self.tri()):
            x = frozen(o); me = self
            if not (len(o.axes[0]) == len(self.ca) and all(same(p, q) for p, q in zip(o.axes[0], self.ca))):
                if not ctx().feasible(SymProd(o.axes[0]).e == SymProd(self.ca).e): raise ValueError('dimension mismatch')
                unsup('product with a vector of another length')
            def f(i):
                v = fresh_idx(me.ca); return SumV(v, me.ca, total(me.entry(tuple(i), v)) * tr(x.at(v))) if v else total(me.entry(tuple(i), ())) * tr(x.at(()))
            return SArr((self.ra, ()), f)
        unsup('product of sparse matrices')
    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], SArr):
            idx = frozen(k[1])
            if idx.mask is not None or len(idx.axes) != 1: unsup('column selection')
            me = self
            def e(i, j):
                v = idx.at(j)
                if isinstance(v, Flat) and len(v.atoms) == len(me.ca) and all(same(x, y) for x, y in zip(v.atoms, me.ca)): return me.entry(i, v.idx)
                if len(me.ca) == 1: return me.entry(i, (ti(v),))
                unsup('column selection')
            return SMat(self.ra, idx.atoms, [e])
        unsup('slicing of a sparse matrix')
    # ---- entries
    def entry(self, i, j):
        """[(condition, value)]: the entry is the sum of the values whose condition holds"""
        out = []
        for p in self.tri():
            if isinstance(p, Tri): out += solve(p, self.ra, tuple(i), self.ca, tuple(j))
            else: out += p(tuple(i), tuple(j))
        return out
class _SpMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, SMat)
class spmatrix(object, metaclass=_SpMeta): pass

def total(terms):
    r = rv(0)
    for t in terms:
        c, v = z3.simplify(t[0]), t[1]
        if z3.is_false(c): continue
        r = r + (tr(v) if z3.is_true(c) else z3.If(c, tr(v), rv(0)))
    return r

def storage_order(t):
    """compressed columns: storage position -> triple.  The identity if the column never decreases and determines the order;
    otherwise an unknown permutation"""
    if t.mask is not None: unsup('stored entries of a masked matrix')
    x = tuple(z3.Int(ctx().fresh('t')) for _ in t.atoms)
    cv, rw = t.col(x), t.row(x)
    if isinstance(cv, Flat) and len(cv.idx) == len(x) and all(a.eq(b) for a, b in zip(cv.idx, x)): return None, None
    n = ctx().fresh('order')
    k = len(x)
    if k == 0: return None, None
    S = [z3.Function('%s_%d' % (n, q), *([z3.IntSort()] * (k + 1))) for q in range(k)]; I = [z3.Function('%s_inv%d' % (n, q), *([z3.IntSort()] * (k + 1))) for q in range(k)]
    def sg(p): return tuple(s(*p) for s in S)
    def inv(i):
        r = tuple(s(*i) for s in I); c = ctx()
        key = ('order', str(r))
        if key not in c.user:
            c.user[key] = 1
            rng = lambda v: z3.And([z3.And(a >= 0, a < d) for a, d in zip(v, t.atoms)])
            c.assume(z3.Implies(rng(i), z3.And([rng(r)] + [a == b for a, b in zip(sg(r), i)])))
        return r
    return sg, inv

def unify(v, atoms, target, unknown, sol, conds):
    """v (a position depending on the unknowns) equals target (an index over atoms)"""
    if isinstance(v, Flat) and len(v.atoms) == len(atoms) and all(same(x, y) for x, y in zip(v.atoms, atoms)):
        for x, t in zip(v.idx, target):
            u = [k for k in unknown if x.eq(k)]
            if u and u[0].get_id() not in sol: sol[u[0].get_id()] = (u[0], t)
            else:
                # x = k + offset
                us = [k for k in unknown if occurs(x, k) and k.get_id() not in sol]
                if len(us) == 1 and z3.simplify(z3.substitute(x, (us[0], us[0] + 1)) - x).eq(z3.IntVal(1)):
                    sol[us[0].get_id()] = (us[0], z3.simplify(t - z3.substitute(x, (us[0], z3.IntVal(0)))))
                else: conds.append(x == t)
        return
    e = ti(v); tgt = Flat(atoms, target).poly()
    u = [k for k in unknown if e.eq(k)]
    if u and u[0].get_id() not in sol: sol[u[0].get_id()] = (u[0], tgt)
    else:
        us = [k for k in unknown if occurs(e, k) and k.get_id() not in sol]
        if len(us) == 1 and z3.simplify(z3.substitute(e, (us[0], us[0] + 1)) - e).eq(z3.IntVal(1)):
            sol[us[0].get_id()] = (us[0], z3.simplify(tgt - z3.substitute(e, (us[0], z3.IntVal(0)))))
        else: conds.append(e == tgt)
def solve(t, ra, i, ca, j):
    x = tuple(z3.Int(ctx().fresh('t')) for _ in t.atoms)
    sol = {}; conds = []
    unify(t.row(x), ra, i, x, sol, conds); unify(t.col(x), ca, j, x, sol, conds)
    if any(v.get_id() not in sol for v in x):
        free = [(v, d) for v, d in zip(x, t.atoms) if v.get_id() not in sol]
        if all(valid(d == 1) for _, d in free):
            for v, d in free: sol[v.get_id()] = (v, z3.IntVal(0))
        else: unsup('an entry of the matrix is a sum of several stored values')
    sub = [sol[v.get_id()] for v in x]
    # solutions may mention other unknowns
    for _ in range(4):
        sub = [(v, z3.substitute(e, *sub)) for v, e in sub]
    if any(occurs(e, v) for _, e in sub for v in x): unsup('coupled equations')
    idx = tuple(e for _, e in sub)
    conds = [z3.substitute(c, *sub) for c in conds] + [z3.And(e >= 0, e < d) for (v, e), d in zip(sub, t.atoms)]
    if t.mask is not None: conds.append(t.mask[1](idx))
    out = (z3.And(conds) if conds else z3.BoolVal(True), t.data(idx))
    # does the row alone determine the stored entry?
    sol2 = {}; c2 = []
    unify(t.row(x), ra, i, x, sol2, c2)
    for v, d in zip(x, t.atoms):
        if v.get_id() not in sol2 and valid(d == 1): sol2[v.get_id()] = (v, z3.IntVal(0))
    if not c2 and all(v.get_id() in sol2 for v in x) and t.mask is None:
        s2 = [sol2[v.get_id()] for v in x]; ix = tuple(e for _, e in s2)
        if not any(occurs(e, v) for e in ix for v in x) and all(valid(z3.And(e >= 0, e < d)) for e, d in zip(ix, t.atoms)): return [out + ((t.col(ix), t.data(ix)),)]
    return [out]
def asmat(o):
    if isinstance(o, SMat): return o
    a = asarr(o)
    if a.opaque or len(a.axes) > 2: unsup('matrix from an array')
    a = np_atleast_2d(a)
    n = sum_len(a.axes[:1]); f = frozen(a)
    return SMat(a.axes[0], a.axes[1], [lambda i, j: [(z3.BoolVal(True), f.at(tuple(i) + tuple(j)))]])

def _coo(arg, shape=None, dtype=None, **k):
    if isinstance(arg, SMat): return arg.copy()
    if isinstance(arg, SArr): return asmat(arg)
    if isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], tuple) and isinstance(arg[0], (int, SymInt)):
        return SMat(atoms_of(arg[0])[0], atoms_of(arg[1])[0], [])
    data, ij = arg
    I, J = (ij[0], ij[1])
    data, I, J = [asarr(x) for x in (data, I, J)]
    if shape is None: unsup('matrix without a shape')
    ra, ca = atoms_of(shape[0])[0], atoms_of(shape[1])[0]
    if any(isinstance(x, Blocks) for x in (data, I, J)):
        if not all(isinstance(x, Blocks) and len(x.blocks) == len(I.blocks) for x in (data, I, J)): unsup('triples of different lengths')
        tr_ = [_tri(d, i, j) for d, i, j in zip(data.blocks, I.blocks, J.blocks)]
    else: tr_ = [_tri(data, I, J)]
    return SMat(ra, ca, tr_)
def _tri(d, i, j):
    d, i, j = frozen(d.ravel()), frozen(i.ravel()), frozen(j.ravel())
    for a, b in ((d, i), (i, j)):
        ok = len(a.atoms) == len(b.atoms) and all(same(x, y) for x, y in zip(a.atoms, b.atoms)) and (a.mask is None) == (b.mask is None) and (a.mask is None or a.mask[0] == b.mask[0])
        if not ok:
            if a.mask is None and b.mask is None and not ctx().feasible(SymProd(a.atoms).e == SymProd(b.atoms).e): raise ValueError('row, column, and data array must all be the same length')
            unsup('triples whose lengths are not seen to agree')
    return Tri(d.atoms, d.mask, i.at, j.at, d.at)
def sp_diags(ds, offs=0, shape=None, format=None, dtype=None):
    if isinstance(ds, SArr) and (isinstance(offs, int)): ds, offs = [ds], [offs]
    if list(offs) != [0] or len(ds) != 1: unsup('diags')
    d = frozen(asarr(ds[0]))
    if d.opaque or len(d.axes) != 1: raise ValueError('diags needs one-dimensional diagonals')
    at = d.axes[0]
    return SMat(at, at, [Tri(at, None, lambda i: Flat(at, i), lambda i: Flat(at, i), d.at)])
def sp_spdiags(d, k, m, n=None, format=None):
    if not (isinstance(k, int) and k == 0 or k in ([0], (0,))): unsup('spdiags')
    d = asarr(d)
    return sp_diags([d.ravel()], [0])
def sp_eye(m, n=None, k=0, dtype=None, format=None):
    if k != 0: unsup('eye off the diagonal')
    a = atoms_of(m)[0]; b = atoms_of(n)[0] if n is not None else a
    if len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)):
        return SMat(a, a, [Tri(a, None, lambda i: Flat(a, i), lambda i: Flat(a, i), lambda i: rv(1))])
    return SMat(a, b, [lambda i, j: [(Flat(a, i).poly() == Flat(b, j).poly(), rv(1))]])
def sp_kron(A, B, format=None):
    A, B = asmat(A), asmat(B); nr, nc = len(A.ra), len(A.ca)
    def e(i, j): return [(z3.And(t1[0], t2[0]), f_mul(t1[1], t2[1])) for t1 in A.entry(i[:nr], j[:nc]) for t2 in B.entry(i[nr:], j[nc:])]
    return SMat(A.ra + B.ra, A.ca + B.ca, [e])
def sp_stack(ms, axis):
    unsup('stacking of sparse matrices')

class UF(object):
    """a numpy function (not a method: does not bind)"""
    def __init__(self, f, name): self.f = f; self.__name__ = name
    def __call__(self, *a, **k):
        k.pop('out', None) if k.get('out', 0) is None else None
        return self.f(*a, **k)
    def __repr__(self): return '<np.%s>' % self.__name__
    def __hash__(self): return hash(self.__name__)
    def __eq__(self, o): return self is o

def matrix_of(J):
    """the Jacobian a compute_dr_wrt returned, as a matrix: 2-d array, sparse matrix, or anything with a single entry"""
    if isinstance(J, SMat): return J
    if isinstance(J, (int, float, SymReal, SymInt)): return SMat((), (), [lambda i, j: [(z3.BoolVal(True), val(J))]])
    if isinstance(J, SArr):
        if not J.opaque and len(J.axes) == 2: return asmat(J)
        f = frozen(J)
        if valid(z3.And([z3.BoolVal(True)] + [a == 1 for a in J.atoms])): return SMat((), (), [lambda i, j: [(z3.BoolVal(True), f.at(tuple(z3.IntVal(0) for _ in f.atoms)))]])
        return None
    unsup('Jacobian', type(J).__name__)

def install(st):
    """give the stub modules their meaning"""
    np = st['numpy']; sp = st['scipy.sparse']
    def put(name, f): setattr(np, name, UF(f, name))
    for n in 'sin cos tan arcsin arccos arctan sqrt exp log floor ceil sinh cosh tanh log1p expm1'.split():
        put(n, lambda x, n=n, **k: ufunc1(lambda v: FN[n](tr(v)), x, 'f'))
    put('square', lambda x: ufunc1(lambda v: f_mul(v, v), x)); put('reciprocal', lambda x: ufunc1(lambda v: rv(1) / tr(v), x, 'f')); put('negative', lambda x: ufunc1(f_neg, x))
    put('abs', lambda x: ufunc1(f_abs, x)); put('absolute', np.abs.f); put('fabs', np.abs.f)
    put('sign', lambda x: ufunc1(lambda v: z3.If(tr(v) > 0, rv(1), z3.If(tr(v) < 0, rv(-1), rv(0))), x))
    put('add', lambda a, b: ufunc2(f_add, a, b)); put('subtract', lambda a, b: ufunc2(f_sub, a, b)); put('multiply', lambda a, b: ufunc2(f_mul, a, b))
    put('divide', lambda a, b: ufunc2(f_div, a, b, 'f')); put('true_divide', np.divide.f); put('power', lambda a, b: ufunc2(f_pow, a, b))
    put('maximum', lambda a, b: ufunc2(lambda x, y: z3.If(tr(x) >= tr(y), tr(x), tr(y)) if not (isinstance(x, int) and isinstance(y, int)) else max(x, y), a, b))
    put('minimum', lambda a, b: ufunc2(lambda x, y: z3.If(tr(x) <= tr(y), tr(x), tr(y)) if not (isinstance(x, int) and isinstance(y, int)) else min(x, y), a, b))
    put('fmax', np.maximum.f); put('fmin', np.minimum.f)
    for n, f in dict(greater=lambda a, b: a > b, greater_equal=lambda a, b: a >= b, less=lambda a, b: a < b, less_equal=lambda a, b: a <= b, equal=lambda a, b: a == b, not_equal=lambda a, b: a != b).items():
        put(n, lambda a, b, f=f: ufunc2(cmpf(f), a, b, 'b'))
    put('logical_and', lambda a, b: ufunc2(lambda x, y: z3.And(tb(x), tb(y)), a, b, 'b')); put('logical_or', lambda a, b: ufunc2(lambda x, y: z3.Or(tb(x), tb(y)), a, b, 'b')); put('logical_not', lambda a: ufunc1(lambda x: z3.Not(tb(x)), a, 'b'))
    for n, v in (('isinf', False), ('isnan', False), ('isfinite', True)): put(n, lambda x, v=v: ufunc1(lambda e: z3.BoolVal(v), x, 'b'))
    put('nan_to_num', lambda x, **k: ufunc1(lambda v: v, x))
    def clip(x, lo=None, hi=None, **k):
        r = asarr(x)
        if lo is not None: r = np.maximum(r, lo)
        if hi is not None: r = np.minimum(r, hi)
        return r
    put('clip', clip)
    put('round', lambda x, *a: x if (isinstance(x, SArr) and x.kind == 'i') or isinstance(x, (int, SymInt)) else unsup('round'))
    put('rint', np.round.f)
    for n, f in dict(ones=np_ones, zeros=np_zeros, empty=np_empty, full=np_full, ones_like=np_ones_like, zeros_like=np_zeros_like, arange=np_arange, asarray=np_asarray, array=np_array, asanyarray=np_asarray, ascontiguousarray=np_asarray,
                     atleast_1d=np_atleast_1d, atleast_2d=np_atleast_2d, atleast_3d=np_atleast_3d, eye=np_eye, identity=np_eye, broadcast=Broadcast, broadcast_to=np_broadcast_to, broadcast_arrays=np_broadcast_arrays, prod=np_prod, product=np_prod,
                     shape=np_shape, ndim=np_ndim, size=np_size, tile=np_tile, repeat=np_repeat, rollaxis=np_rollaxis, moveaxis=np_moveaxis, transpose=transpose, swapaxes=lambda a, axis1, axis2: swapaxes(asarr(a), axis1, axis2),
                     sum=np_sum, mean=np_mean, cumsum=np_cumsum, dot=np_dot, matmul=np_dot, amax=np_amax, amin=np_amin, max=np_amax, min=np_amin, argmax=np_argmax, argmin=np_argmin, nanmax=np_nanmax, nanmin=np_nanmin, nanargmax=np_nanargmax, nanargmin=np_nanargmin,
                     cross=np_cross, kron=np_kron, concatenate=np_concatenate, vstack=np_vstack, hstack=np_hstack, dstack=np_dstack, nonzero=np_nonzero, flatnonzero=lambda a: np_nonzero(asarr(a).ravel())[0], where=np_where, take=np_take, einsum=np_einsum, outer=lambda a, b: ufunc2(f_mul, asarr(a).reshape((-1, 1)), asarr(b).reshape((1, -1))),
                     reshape=lambda a, s, **k: reshape(asarr(a), s), ravel=lambda a, **k: asarr(a).ravel(), copy=lambda a: frozen(asarr(a)), require=lambda a, dtype=None, requirements=None: asarr(a), diag=lambda a, k=0: opaque_map('diag', asarr(a), (k,)), diagflat=lambda a, k=0: opaque_map('diagflat', asarr(a), (k,)),
                     roll=lambda a, s, axis=None: opaque_map('roll', asarr(a), (s, axis)), rot90=lambda a, k=1, *r: opaque_map('rot90', asarr(a), (k,) + r), squeeze=lambda a, axis=None: opaque_map('squeeze', asarr(a), (axis,)), expand_dims=lambda a, axis: opaque_map('expand_dims', asarr(a), (axis,)),
                     flip=lambda a, axis=None: opaque_map('flip', asarr(a), (axis,)), fliplr=lambda a: opaque_map('fliplr', asarr(a), ()), flipud=lambda a: opaque_map('flipud', asarr(a), ()),
                     sort=np_sort, argsort=np_argsort, take_along_axis=np_take_along_axis, spacing=lambda x: 2.220446049250313e-16, isscalar=lambda x: isinstance(x, (int, float, SymInt, SymReal))).items(): put(n, f)
    np.broadcast = Broadcast
    np.ndarray = ndarray; np.newaxis = None; np.nan = float('nan'); np.float_ = stubs.Float64
    class errstate(object):
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
    np.errstate = errstate
    for n in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'lil_matrix', 'csc_array', 'csr_array', 'coo_array'): setattr(sp, n, UF(_coo, n))
    sp.diags = UF(sp_diags, 'diags'); sp.spdiags = UF(sp_spdiags, 'spdiags'); sp.dia_matrix = UF(lambda *a, **k: unsup('dia_matrix'), 'dia_matrix'); sp.eye = UF(sp_eye, 'eye'); sp.identity = UF(sp_eye, 'identity'); sp.kron = UF(sp_kron, 'kron')
    sp.issparse = UF(lambda x: isinstance(x, SMat), 'issparse'); sp.isspmatrix = sp.issparse; sp.spmatrix = spmatrix
    ss = st['scipy.special']
    ss.gamma = UF(lambda x: ufunc1(lambda v: FN['gamma'](tr(v)), x), 'gamma'); ss.digamma = UF(lambda x: ufunc1(lambda v: FN['digamma'](tr(v)), x), 'digamma'); ss.psi = ss.digamma
    ss.polygamma = UF(lambda n, x: ufunc1(lambda v: FN['digamma'](tr(v)), x) if n == 0 else unsup('polygamma'), 'polygamma')
    return np

# ------------------------------------------------------------------ the derivative of an array with respect to an operand
def protect(a, name, func):
    """frame condition: at the end of the path the array still has its entries"""
    c = ctx(); old = frozen(a); b = a.buf; fn0 = b.fn
    b.prot = (name, func)
    def check(c):
        if b.fn is fn0: return c.prove(name, True, func)
        i = fresh_idx(a.atoms, 'f')
        for x, d in zip(i, a.atoms): c.assume(z3.And(x >= 0, x < d))
        prove_same_value(name, a.at(i), old.at(i), func)
    c.final.append(check)
    if not a.ro: c.final.append(lambda c: c.prove('no array of the caller is made read-only', not a.ro, func))
def prove_same_value(name, u, v, f):
    if isinstance(u, SumV) and isinstance(v, SumV) and len(u.vs) == len(v.vs):
        ctx().prove(name, bool(all(same(x, y) for x, y in zip(u.dims, v.dims))), f)
        return prove_eq(name, z3.substitute(u.body, *[(x, y) for x, y in zip(u.vs, v.vs)]), v.body, f)
    if isinstance(u, (SumV, SumList)) or isinstance(v, (SumV, SumList)): unsup('value is a sum')
    return prove_eq(name, u, v, f)
class Leaf(object):
    """an operand: a function symbol of its index"""
    def __init__(self, name, axes):
        self.name = name; self.axes = axes
        at = (axes.size(),) if isinstance(axes, OShape) else tuple(a for g in axes for a in map(iv, g) if lit(a) != 1)
        self.atoms = at; n = len(at)
        self.f = z3.Function(name, *([z3.IntSort()] * n + [R])) if n else None
        self.c = z3.Real(name) if not n else None
    def arr(self, ro=True):
        a = SArr(self.axes, (lambda i: self.f(*i)) if self.f is not None else (lambda i: self.c), ro=ro)
        if core.CTX is not None and not ro: protect(a, "no operand's array is written to", 'operands')
        return a
    def index(self, base='j'):
        v = tuple(z3.Int(ctx().fresh(base)) for _ in self.atoms)
        for x, d in zip(v, self.atoms): ctx().assume(z3.And(x >= 0, x < d))
        return v
def derivative(v, leaf, j):
    """[(condition, value)]: derivative of the entry v with respect to entry j of the operand"""
    if isinstance(v, SumList): return [t for p in v.ps for t in derivative(p, leaf, j)]
    vs, dims, body = (v.vs, v.dims, v.body) if isinstance(v, SumV) else ((), (), v)
    body = tr(body)
    if leaf.f is None: occ = [leaf.c] if occurs(body, leaf.c) else []
    else: occ = apps(body, [leaf.f])
    out = []
    for o in occ:
        d = diff(body, o)
        sol = {}; conds = []
        unify(Flat(leaf.atoms, o.children() if leaf.f is not None else ()), leaf.atoms, j, vs, sol, conds)
        free = [(x, n) for x, n in zip(vs, dims) if x.get_id() not in sol]
        if free:
            if all(valid(n == 1) for _, n in free):
                for x, n in free: sol[x.get_id()] = (x, z3.IntVal(0))
            else:
                out.append(('sum', vs, dims, z3.And(conds) if conds else z3.BoolVal(True), d, sol)); continue
        sub = [sol[x.get_id()] for x in vs]
        for _ in range(3): sub = [(x, z3.substitute(e, *sub)) for x, e in sub] if sub else sub
        conds = [z3.substitute(c, *sub) if sub else c for c in conds] + [z3.And(e >= 0, e < n) for (x, e), n in zip(sub, dims)]
        w = (z3.And(conds) if conds else z3.BoolVal(True), z3.substitute(d, *sub) if sub else d)
        if not vs: w = w + ((Flat(leaf.atoms, tuple(o.children()) if leaf.f is not None else ()), d),)
        out.append(w)
    return out
def prove_jacobian(J, out, leaf, func, what='Jacobian entry is the partial derivative', conds=()):
    """for every row i and column j: entry(i, j) of J = d out[i] / d leaf[j]"""
    c = ctx()
    M = matrix_of(J)
    i = tuple(z3.Int(c.fresh('i')) for _ in out.atoms)
    for x, d in zip(i, out.atoms): c.assume(z3.And(x >= 0, x < d))
    j = leaf.index()
    if M is None: return c.prove('the Jacobian is a matrix', False, func)
    M, ii, jj = conform(M, out.atoms, i, leaf.atoms, j, func)
    if M is None: return False
    got = M.entry(ii, jj)
    want = derivative(out.at(i), leaf, j)
    return same_entry(what, got, want, func, conds)
def conform(M, ra, i, ca, j, func):
    """express the row and column index in the atoms of the matrix"""
    c = ctx()
    def one(ma, a, x, what):
        if len(ma) == len(a) and all(same(p, q) for p, q in zip(ma, a)): return x
        pm, pa = SymProd(ma).e, SymProd(a).e
        if not c.prove('the Jacobian has one %s per flattened entry' % what, pm == pa, func): return None
        if valid(pm == 1): return tuple(z3.IntVal(0) for _ in ma)
        if len(ma) == 1: return (Flat(a, x).poly(),)
        mm = [k for k in ma if not valid(k == 1)]; aa = [(k, y) for k, y in zip(a, x) if not valid(k == 1)]
        if len(mm) == len(aa) and all(same(p, q[0]) for p, q in zip(mm, aa)):
            it = iter(aa); return tuple(next(it)[1] if not valid(k == 1) else z3.IntVal(0) for k in ma)
        # the flattened position, taken apart again by the lengths the matrix has: there is exactly one such index
        q = tuple(z3.Int(c.fresh('q')) for _ in ma)
        for y, k in zip(q, ma): c.assume(z3.And(y >= 0, y < k))
        c.assume(Flat(tuple(ma), q).poly() == Flat(a, x).poly())
        return q
    ii = one(M.ra, ra, i, 'row')
    if ii is None: return None, None, None
    jj = one(M.ca, ca, j, 'column')
    if jj is None: return None, None, None
    return M, ii, jj
def same_entry(what, got, want, func, conds=()):
    c = ctx()
    if any(t[0] == 'sum' for t in want if isinstance(t[0], str)): return same_sum(what, got, want, func, conds)
    def live(ts):
        ts = [(z3.simplify(t[0]),) + tuple(t[1:]) for t in ts]
        return [t for t in ts if not z3.is_false(t[0]) and (isinstance(t[1], SumV) or num(tr(t[1])) != 0)]
    gz, ws = live(got), live(want)
    if len(gz) == 1 and len(ws) == 1:
        (c1, v1), (c2, v2) = gz[0][:2], ws[0][:2]
        if len(gz[0]) > 2 and len(ws[0]) > 2:
            # both say: this row has one entry, in this column, with this value
            (p1, d1), (p2, d2) = gz[0][2], ws[0][2]
            if valid(ti(p1) == ti(p2)): return prove_eq(what, d1, d2, func, conds)
        if isinstance(v1, SumV): unsup('sum as a Jacobian entry')
        iff = c1.eq(c2) or valid(c1 == c2)
        if iff:
            return prove_eq(what, v1, v2, func, list(conds) + [c1])
        # entries may vanish where the conditions differ
    a, b = total([t[:2] for t in gz]), total([t[:2] for t in ws])
    return prove_eq(what, a, b, func, conds)
def same_sum(what, got, want, func, conds): unsup('sum as a Jacobian entry')
