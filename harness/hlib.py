"""Shared helpers of the concrete contract replay (runs the real code under PyPy)."""
import os, sys, time, warnings, traceback
import numpy as np
import scipy.sparse as sp
warnings.simplefilter('ignore')
np.seterr(all='ignore')
import chumpy as ch
from chumpy.ch import Ch

class Stop(BaseException):
    pass

class Rep(object):
    """Collects what was evaluated and what failed."""
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0 = time.time(); self.budget = budget
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.failures = []
        self.known = []
        self.section = ''
    def rng(self, salt=0):
        return np.random.RandomState((self.seed * 1000003 + salt * 7919 + 17) % (2**31))
    def time_left(self):
        return self.budget - (time.time() - self.t0)
    def count(self, key, sample=None):
        self.evaluations += 1
        if key is not None:
            self.keys.add(key)
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)
    def fail(self, case, msg, known=None):
        if known:
            if known not in self.known: self.known.append(known)
            return
        self.failures.append(dict(section=self.section, case=str(case), message=str(msg)[:3000]))
        if len(self.failures) >= 5:
            raise Stop()

def arr(v):
    return np.array2string(np.asarray(v), precision=8, threshold=60)

def dense(J, rows=None, cols=None):
    """Any representation of a Jacobian as a plain 2-D array (None = zeros)."""
    if J is None:
        return np.zeros((rows, cols))
    if sp.issparse(J):
        J = J.toarray()
    elif isinstance(J, sp.linalg.LinearOperator):
        J = J.dot(np.eye(J.shape[1]))
    J = np.asarray(J, dtype=np.float64)
    J = np.atleast_2d(J)
    return J

def close(a, b, tol=1e-6):
    a = np.asarray(a, np.float64); b = np.asarray(b, np.float64)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = a[~na], b[~nb]
    ia = np.isinf(a) | np.isinf(b)
    if ia.any():
        if not np.array_equal(a[ia], b[ia]): return False
        a, b = a[~ia], b[~ia]
    if a.size == 0: return True
    scale = 1. + max(np.abs(a).max(), np.abs(b).max())
    return bool(np.abs(a - b).max() <= tol * scale)

def fd(f, arrays, i, h=1e-3):
    """4th order central differences of the flattened f(arrays) wrt arrays[i]."""
    base = np.asarray(f(arrays), np.float64).ravel()
    x = np.array(arrays[i], np.float64)
    J = np.zeros((base.size, x.size))
    for k in range(x.size):
        vals = []
        for m in (-2, -1, 1, 2):
            xx = x.copy(); xx.reshape(-1)[k] += m * h
            a2 = list(arrays); a2[i] = xx
            vals.append(np.array(f(a2), np.float64).ravel())
        J[:, k] = (vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h)
    return J

def fresh(build, arrays, *args):
    return np.array(build([Ch(np.array(a, np.float64)) for a in arrays], *args).r)

def check_jac(rep, case, live, vs, build, arrays, args=(), tol=2e-6, reverse=False, want=None):
    """dr_wrt of the live object against finite differences of a fresh copy of the expression."""
    for i, v in enumerate(vs):
        ref = want[i] if want is not None else fd(lambda a: fresh(build, a, *args), arrays, i)
        try:
            J = live.dr_wrt(v, reverse_mode=True) if reverse else live.dr_wrt(v)
            D = dense(J, ref.shape[0], ref.shape[1])
        except Exception as e:
            rep.fail(case, 'derivative wrt operand %d raised %s: %s\n%s' % (i, type(e).__name__, e, traceback.format_exc()[-800:]))
            continue
        rep.count((case, i))
        if not close(D, ref, tol):
            rep.fail(case, 'derivative wrt operand %d of shape %s differs from the derivative of the value.\ninputs:\n%s\nreported:\n%s\nexpected:\n%s' % (
                i, np.shape(arrays[i]), '\n'.join(arr(a) for a in arrays), arr(D), arr(ref)))
