"""Path-exploring symbolic execution core: forks, obligations, loop cuts.

The repository's functions run natively (CPython) on symbolic values.  Every Python truth test of a
symbolic condition asks `Ctx.fork`; the exploration driver re-runs the entry once per feasible path.
Obligations are discharged under the path condition by z3, with cvc5 as second opinion.
"""
import time, os, subprocess, tempfile, sys
import z3

class PathEnd(BaseException):
    """this path is finished (e.g. end of an arbitrary loop iteration)"""
class Unsupported(BaseException):
    """the code uses something outside the verifier's reach: nothing is claimed"""
class Infeasible(BaseException):
    pass

class Obligation(object):
    __slots__ = ('name', 'func', 'status', 'backend', 'time', 'detail')
    def __init__(self, name, func, status, backend='', t=0., detail=''):
        self.name, self.func, self.status, self.backend, self.time, self.detail = name, func, status, backend, t, detail
    def as_dict(self):
        return dict(name=self.name, function=self.func, status=self.status, backend=self.backend, time=round(self.time, 4), detail=self.detail)

CTX = None

def ctx():
    if CTX is None: raise Unsupported('symbolic value used outside of an exploration')
    return CTX

SOLVER_TIME = [0.0]
QUERIES = [0]

def z3_check(assertions, timeout=10000):
    t = time.time(); QUERIES[0] += 1
    s = z3.Solver(); s.set('timeout', timeout)
    for a in assertions: s.add(a)
    r = s.check()
    dt = time.time() - t; SOLVER_TIME[0] += dt
    return str(r), s, dt

def cvc5_check(solver, timeout=10):
    t = time.time(); QUERIES[0] += 1
    try:
        smt = '(set-logic ALL)\n' + solver.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(smt)
        out = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 5).stdout.split()
        os.unlink(f.name)
        r = out[0] if out else 'unknown'
    except Exception: r = 'unknown'
    SOLVER_TIME[0] += time.time() - t
    return r

class Ctx(object):
    def __init__(self, prefix, feas_timeout=3000):
        self.prefix = list(prefix); self.trace = []; self.pc = []
        self.alts = []            # positions at which the other branch is to be explored
        self.obl = []
        self.counter = 0
        self.facts = []           # background facts (axioms instances) on demand
        self.unsupported = None
        self.notes = []
        self.feas_timeout = feas_timeout
        self.covered = set()
        self.loopstack = []
        self.user = {}; self.after = False; self.final = []
        self._solver = z3.Solver(); self._solver.set('timeout', feas_timeout)
    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)
    def assume(self, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        self.pc.append(c); self._solver.add(c)
    def fact(self, c):
        self.assume(c)
    def feasible(self, c=None):
        t = time.time(); QUERIES[0] += 1
        r = self._solver.check(*([c] if c is not None else []))
        SOLVER_TIME[0] += time.time() - t
        return r != z3.unsat
    def choose(self, n, label=''):
        """nondeterministic choice among n alternatives (all explored)"""
        if self.user.get('par'): raise Unsupported('choice inside a loop over a symbolic range')
        k = len(self.trace)
        if k < len(self.prefix): v = self.prefix[k]
        else:
            v = 0
        self.trace.append(v)
        if k >= len(self.prefix):
            for alt in range(1, n): self.alts.append(self.trace[:k] + [alt])
        return v
    def fork(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.user.get('par'):
            can_t, can_f = self.feasible(c), self.feasible(z3.Not(c))
            if can_t and can_f: raise Unsupported('branch inside a loop over a symbolic range')
            if not can_t and not can_f: raise Unsupported('unreachable loop body')
            return can_t
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]; self.trace.append(v)
        else:
            can_t, can_f = self.feasible(c), self.feasible(z3.Not(c))
            if not can_t and not can_f: raise Infeasible()
            v = 1 if can_t else 0
            self.trace.append(v)
            if can_t and can_f: self.alts.append(self.trace[:k] + [0])
        self.assume(c if v else z3.Not(c))
        return bool(v)
    # ---- obligations
    def prove(self, name, c, func='', timeout=15000, numeric=None):
        """Record an obligation: c holds under the path condition.  numeric: callback deciding whether a
        counter-model is real (True: refuted, False: undecided)."""
        if self.after and not name.endswith(AFTER): name += AFTER
        if isinstance(c, bool):
            self.obl.append(Obligation(name, func, 'proved' if c else 'refuted', 'syntactic', 0., '' if c else 'false on this path: %s' % self.describe()))
            return c
        t = time.time()
        r, s, dt = z3_check(self.pc + [z3.Not(c)], timeout)
        backend = 'z3'
        if r == 'unknown':
            # second strategy of the same solver (non-linear real arithmetic)
            try:
                s2 = z3.Tactic('qfnra-nlsat').solver(); s2.set('timeout', timeout)
                for a in self.pc + [z3.Not(c)]: s2.add(a)
                QUERIES[0] += 1; tt = time.time(); r2 = str(s2.check()); SOLVER_TIME[0] += time.time() - tt
                if r2 in ('sat', 'unsat'): r, s, backend = r2, s2, 'z3 nlsat'
            except z3.Z3Exception: pass
        if r == 'unknown':
            r2 = cvc5_check(s)
            if r2 in ('sat', 'unsat'): r, backend = r2, 'cvc5'
        if r == 'unsat':
            self.obl.append(Obligation(name, func, 'proved', backend, time.time() - t)); return True
        if r == 'sat':
            detail = ''
            try: detail = 'counter-model: %s' % str(s.model())[:1500]
            except Exception: pass
            ok = True
            if numeric is not None: ok = numeric()
            self.obl.append(Obligation(name, func, 'refuted' if ok else 'unknown', backend, time.time() - t, detail + ' path: ' + self.describe())); return False
        self.obl.append(Obligation(name, func, 'unknown', backend, time.time() - t, 'solver gave no answer; path: ' + self.describe())); return False
    def describe(self):
        return '; '.join(str(p).replace('\n', ' ') for p in self.pc[-12:])[:1500]
    def cover(self, name):
        self.covered.add(name)
        if name == 'first': self.after = True       # what follows is asked after a change
    def finish(self):
        """conditions on the state at the end of the path (frame conditions)"""
        if self.final: self.after = False
        for f in self.final: f(self)

AFTER = ' after a change'
class Result(object):
    def __init__(self, entry):
        self.entry = entry; self.obligations = []; self.paths = 0; self.unsupported = []; self.covered = set(); self.notes = []; self.values = []

def explore(entry, run, max_paths=400, max_time=120., must_cover=()):
    """run() is executed once per path.  Returns the merged Result."""
    global CTX
    res = Result(entry)
    work = [[]]; t0 = time.time()
    while work:
        prefix = work.pop()
        if res.paths >= max_paths or time.time() - t0 > max_time:
            res.unsupported.append('exploration limit reached (%d paths, %.0f s)' % (res.paths, time.time() - t0)); break
        c = Ctx(prefix); CTX = c
        try:
            v = run()
            if c.unsupported: raise Unsupported(c.unsupported)
            c.finish()
            res.values.append(v)
        except PathEnd: pass
        except Infeasible:
            work.extend(c.alts); continue
        except Unsupported as e:
            if not c.feasible(): work.extend(c.alts); continue
            res.unsupported.append(str(e) or 'unsupported')
        except RecursionError as e:
            res.unsupported.append('recursion')
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1]
            own = os.path.dirname(os.path.abspath(__file__))
            where = '%s:%d' % (last.filename, last.lineno)
            if c.unsupported: res.unsupported.append(c.unsupported)
            elif last.filename.startswith(own) or not c.feasible():
                res.unsupported.append('%s: %s at %s' % (type(e).__name__, e, where))
            else:
                res.unsupported.append('%s: %s raised by the code at %s [%s]' % (type(e).__name__, e, where, c.describe()))
        finally:
            CTX = None
        res.paths += 1
        res.obligations.extend(c.obl); res.covered |= c.covered; res.notes.extend(c.notes)
        work.extend(c.alts)
    for m in must_cover:
        if m not in res.covered: res.unsupported.append('vacuous: no path reached "%s"' % m)
    return res

# ---------------------------------------------------------------- symbolic scalars
def _num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)

class SymBool(object):
    def __init__(self, e): self.e = e
    def __bool__(self): return ctx().fork(self.e)
    def __and__(self, o): return SymBool(z3.And(self.e, tobool(o)))
    def __or__(self, o): return SymBool(z3.Or(self.e, tobool(o)))
    def __invert__(self): return SymBool(z3.Not(self.e))
    __rand__ = __and__; __ror__ = __or__
    def __hash__(self): return 7
    def __eq__(self, o): return SymBool(self.e == tobool(o))
    def __format__(self, f): return repr(self)
    def __repr__(self): return 'SymBool(%s)' % self.e

def tobool(o):
    if isinstance(o, SymBool): return o.e
    if isinstance(o, bool): return z3.BoolVal(o)
    if z3.is_expr(o): return o
    raise Unsupported('boolean from %r' % (o,))

def rv(x):
    """python number -> z3 real"""
    from fractions import Fraction
    f = Fraction(x)
    return z3.RealVal(str(f))

class SymInt(object):
    """integer expression; hash is constant so that dict lookups compare (and fork)"""
    def __init__(self, e): self.e = e if z3.is_expr(e) else z3.IntVal(int(e))
    def _o(self, o):
        if isinstance(o, SymInt): return o.e
        if isinstance(o, int): return z3.IntVal(o)
        return None
    def _bin(self, o, f):
        oe = self._o(o)
        if oe is None:
            if isinstance(o, float) or isinstance(o, SymReal): return f(SymReal(z3.ToReal(self.e)), o)
            return NotImplemented
        return SymInt(z3.simplify(f(self.e, oe)))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __neg__(self): return SymInt(-self.e)
    def __mod__(self, o):
        if isinstance(o, int) and o > 0: return SymInt(self.e % o) # the same as Python's for a positive modulus
        return NotImplemented
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0: return SymInt(self.e / o)
        return NotImplemented
    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and o & (o + 1) == 0: return SymInt(self.e % (o + 1))
        return NotImplemented
    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / (o if not isinstance(o, SymInt) else SymReal(z3.ToReal(o.e)))
    def __rtruediv__(self, o):
        return (o if isinstance(o, SymReal) else SymReal(rv(o))) / SymReal(z3.ToReal(self.e))
    def _cmp(self, o, f):
        oe = self._o(o)
        if oe is None:
            if isinstance(o, float):
                if o != o or o in (float('inf'), float('-inf')): return f(0., o)
                return SymBool(f(z3.ToReal(self.e), rv(o)))
            if isinstance(o, SymReal): return f(SymReal(z3.ToReal(self.e)), o)
            return NotImplemented
        return SymBool(f(self.e, oe))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)
    def __hash__(self): return 11
    def __bool__(self): return ctx().fork(self.e != 0)
    def __float__(self): raise Unsupported('float() of a symbolic integer')
    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v): return v.as_long()
        raise Unsupported('concrete integer needed for %s' % self.e)
    def __int__(self): return self.__index__()
    def __format__(self, f): return repr(self)
    def __repr__(self): return 'SymInt(%s)' % self.e

class SymReal(object):
    """real expression with a NaN flag (machine arithmetic is treated as real arithmetic plus NaN)"""
    def __init__(self, e, nan=None): self.e = e; self.nan = nan
    @staticmethod
    def of(o):
        if isinstance(o, SymReal): return o
        if isinstance(o, SymInt): return SymReal(z3.ToReal(o.e))
        if isinstance(o, bool): return SymReal(rv(int(o)))
        if isinstance(o, (int, float)):
            if o != o: return SymReal(rv(0), z3.BoolVal(True))
            if o in (float('inf'), float('-inf')): return None
            return SymReal(rv(o))
        return None
    def _n(self, o):
        if self.nan is None: return o.nan
        if o.nan is None: return self.nan
        return z3.Or(self.nan, o.nan)
    def _bin(self, o, f):
        if not isinstance(o, (SymReal, SymInt, int, float)): return NotImplemented
        o2 = SymReal.of(o)
        if o2 is None: raise Unsupported('arithmetic with infinity')
        return SymReal(f(self.e, o2.e), self._n(o2))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SymReal(-self.e, self.nan)
    def __pos__(self): return self
    def __pow__(self, k):
        if isinstance(k, (int, float)) and float(k).is_integer() and 0 <= k <= 6:
            r = SymReal(rv(1), self.nan)
            for _ in range(int(k)): r = SymReal(r.e * self.e, self.nan)
            return r if k else SymReal(rv(1))
        if hasattr(type(k), '__rpow__') and not isinstance(k, (int, float)): return NotImplemented
        raise Unsupported('power %r' % (k,))
    def _cmp(self, o, f):
        if not isinstance(o, (SymReal, SymInt, int, float)): return NotImplemented
        o2 = SymReal.of(o)
        if o2 is None: # comparison with infinity: every real is finite
            b = f(0., float(o))
            return SymBool(z3.And(z3.Not(self.nan), z3.BoolVal(b)) if self.nan is not None else z3.BoolVal(b))
        c = f(self.e, o2.e); n = self._n(o2)
        return SymBool(c if n is None else z3.And(z3.Not(n), c))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented: return r
        return (not r) if isinstance(r, bool) else SymBool(z3.Not(r.e))
    def __hash__(self): return 13
    def __bool__(self): return ctx().fork(self.e != 0)
    def __float__(self): raise Unsupported('float() of a symbolic real')
    def __abs__(self): return SymReal(z3.If(self.e >= 0, self.e, -self.e), self.nan)
    def __format__(self, f): return repr(self)
    def __repr__(self): return 'SymReal(%s)' % self.e
    # numpy scalar look
    def ravel(self, *a): return OneList(self)
    def item(self): return self
    @property
    def T(self): return self
    @property
    def size(self): return 1
    def copy(self): return self
    def reshape(self, *a): return self

class OneList(object):
    def __init__(self, v): self.v = v
    def __getitem__(self, i):
        if i == 0 or i == -1: return self.v
        raise IndexError(i)

import numbers
numbers.Number.register(SymReal)
numbers.Number.register(SymInt)

def real(name): return SymReal(z3.Real(name))
def integer(name): return SymInt(z3.Int(name))
