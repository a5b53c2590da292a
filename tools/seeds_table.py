# (id, property, file, old, new, needs, what_it_breaks, demo)
D = '''
def dn(J): return np.asarray(J.todense() if sp.issparse(J) else J)
'''
SEEDS = [
('s01', 'C01', 'ch_ops.py', "        uid = (a.shape, b.shape, wrt is a, wrt is b)\n", "        uid = (a.size, b.size, wrt is a, wrt is b)\n",
 'two broadcast operations in one process whose operands have equal sizes but different shapes, e.g. (3,3)+(1,3) differentiated before (3,3)+(3,1)',
 'the structure remembered for the first shape combination is used for the second: the Jacobian columns are wrong', D + '''
a = Ch(np.arange(9.).reshape(3,3)); b = Ch(np.ones((1,3))); c = Ch(np.ones((3,1)))
(a*b).dr_wrt(b)
J = dn((a*c).dr_wrt(c))
want = np.zeros((9,3))
for i in range(3):
    for j in range(3): want[3*i+j, i] = a.r[i,j]
assert np.allclose(J, want), J
'''),
('s02', 'C02', 'reordering.py', "    def reorder(self, a): return np.rot90(a, self.k)\n    def unique_reorder_id(self): return (self.a.shape, self.k)", "    def reorder(self, a): return np.rot90(a, self.k)\n    def unique_reorder_id(self): return (self.a.shape, self.k % 2)",
 'an existing rot90 object whose k is changed from 1 to 3 (same parity) after it has been differentiated',
 'the derivative of the earlier rotation is returned', D + '''
a = Ch(np.arange(6.).reshape(2,3)); e = ch.rot90(a, 1); e.dr_wrt(a); e.k = 3
J = dn(e.dr_wrt(a))
assert np.allclose(J.dot(a.r.ravel()), e.r.ravel()), J
'''),
('s03', 'C03', 'ch_ops.py', "        return np.array(np.mean(self.x.r, axis=self.axis))\n\n    def compute_dr_wrt(self, wrt):\n        if wrt is not self.x:\n            return\n        if self.axis == None:\n            return row(np.ones((1, self.x.size)))/self.x.size\n        else:\n            uid = tuple(list(self.x.shape) + [self.axis])\n",
 "        return np.array(np.mean(self.x.r, axis=self.axis))\n\n    def compute_dr_wrt(self, wrt):\n        if wrt is not self.x:\n            return\n        if self.axis == None:\n            return row(np.ones((1, self.x.size)))/self.x.size\n        else:\n            uid = (self.r.size, self.x.size, self.axis)\n",
 'a mean over an axis whose input is given a new shape with the same number of entries and the same number of results: (2,3,2) -> (3,2,2) over axis 1 ... -> equal counts',
 'the derivative remembered for the old shape is returned for the new one', D + '''
x = Ch(np.arange(16.).reshape(2,2,4)); e = ch.mean(x, axis=1); e.dr_wrt(x)
x.x = np.arange(16.).reshape(4,2,2)
J = dn(e.dr_wrt(x))
assert np.allclose(J.dot(x.r.ravel()), e.r.ravel()), J
'''),
('s04', 'C04', 'linalg.py', "            result = np.dstack([-np.kron(Ainv[i], AinvT[i]).T for i in range(Ainv.shape[0])]).T\n", "            result = np.dstack([-np.kron(AinvT[i], Ainv[i]).T for i in range(Ainv.shape[0])]).T\n",
 'the inverse of a stack of non-symmetric matrices', 'the Jacobian blocks are those of the transposed inverse; symmetric matrices hide it', D + '''
A = Ch(np.array([[[2.,1.],[0.,3.]],[[1.,4.],[0.5,5.]]])); e = ch.linalg.inv(A)
J = dn(e.dr_wrt(A)); h = 1e-6
for k in range(8):
    B = A.r.copy(); B.ravel()[k] += h
    d = (np.linalg.inv(B)-np.linalg.inv(A.r)).ravel()/h
    assert np.allclose(J[:,k], d, atol=1e-4), (k, J[:,k], d)
'''),
('s05', 'C05', 'ch.py', "                if inner is self: \n                    return None\n", "                if inner is self or not issubclass(inner.__class__, Permute) and inner is not wrt.a:\n                    return None\n",
 'a derivative with respect to a selection of a selection (or of a reshape) of a variable', 'the derivative is reported as absent', D + '''
x = Ch(np.arange(1., 7.)); w = x[1:5][::2]; e = x**2
J = e.dr_wrt(w)
assert J is not None
J = dn(J); want = np.diag(2*x.r)[:, [1,3]]
assert np.allclose(J, want), J
'''),
('s06', 'C06', 'ch.py', "        else:\n            result = reduce(lambda x, y: x+y, drs)\n\n            \n        return result\n", "        else:\n            result = drs[0] + drs[-1]\n\n            \n        return result\n",
 'left multiplication through a node with at least three distinct inputs that depend on the target', 'only the first and the last contribution are kept', D + '''
x = Ch(np.array([1.,2.])); e = ch.concatenate([x*2, x**2, ch.sin(x), ch.exp(x)])
L = np.arange(8.).reshape(1,8)
assert np.allclose(np.asarray(e.lop(x, L)), L.dot(dn(e.dr_wrt(x))))
'''),
('s07', 'C07', 'ch.py', "                    if len(term._parents[self]['varnames']) == 0:\n", "                    if len(term._parents[self]['varnames']) <= 1:\n",
 'one object in two operand slots, one of which is reassigned before the object changes', 'the object forgets that the expression still uses it: the value is stale after the change', '''
x = Ch(np.array([1.,2.])); y = Ch(np.array([10.,20.])); e = ch.add(a=x, b=x); e.r
e.a = y; e.r
x.x = np.array([5.,6.])
assert np.allclose(e.r, [15., 26.]), e.r
'''),
('s08', 'C08', 'ch.py', "                next._cache['drs'].clear()\n                next._itr = itr\n", "                if len(next._parents) != 1: # nothing is remembered otherwise\n                    next._cache['drs'].clear()\n                next._itr = itr\n",
 'a derivative remembered while the node had no parent, which then becomes part of exactly one expression before a variable changes', 'the remembered derivative survives the change', D + '''
x = Ch(np.array([1.,2.,3.])); e = x*x
e.dr_wrt(x); f = e*2.
x.x = np.array([4.,5.,6.])
assert np.allclose(dn(f.dr_wrt(x)), np.diag([16.,20.,24.])), dn(f.dr_wrt(x))
'''),
('s09', 'C09', 'ch.py', "                    parent._invalidate_cacheprop_names(parent_dict['varnames']) \n", "                    parent._invalidate_cacheprop_names(sorted(parent_dict['varnames'])[:1])\n",
 'a property depending on the second of two inputs which are the same object', 'the property is not recomputed after that object changed', '''
from chumpy.ch import depends_on
class T(Ch):
    dterms = 'a', 'b'
    def compute_r(self): return self.p
    def compute_dr_wrt(self, wrt): return None
    @depends_on('b')
    def p(self): return self.b.r * 2
x = Ch(np.array([1.])); t = T(a=x, b=x)
assert t.p[0] == 2.
x.x = np.array([3.])
assert t.p[0] == 6., t.p
'''),
('s10', 'C10', 'linalg.py', "        result[1][np.abs(result[1]) < np.spacing(1)] = 0.\n", "        result[1][np.abs(result[1]) < np.spacing(1) ** .5] = 0.\n",
 'a matrix with a singular value below 1.5e-8', 'that singular value is returned as 0', '''
A = np.diag([1., 1e-9]); u, s, v = ch.linalg.svd(Ch(A))
assert np.allclose(s.r, [1., 1e-9], rtol=1e-6, atol=0), s.r
'''),
('s13', 'C13', 'ch.py', "        for k in set(self.dterms).intersection(set(self.__dict__.keys())):\n            setattr(self, k, self.__dict__[k])\n", "        for k in set(self.__class__.dterms).intersection(set(self.__dict__.keys())):\n            setattr(self, k, self.__dict__[k])\n",
 'copying an expression containing a node with per-object inputs (a concatenation) and then changing a variable of the copy', 'the copy does not react to the change of its own variable', '''
x = Ch(np.array([1.,2.])); e = ch.concatenate([x*1, Ch(np.array([3.]))]); e.r
c = e.copy(); c.r
c.m0.a.x = np.array([7.,8.])
assert np.allclose(c.r, [7.,8.,3.]), c.r
'''),
('s14', 'C14', 'ch.py', "            if term is old:\n                setattr(self, term_name, new)\n            elif", "            if term is old:\n                return setattr(self, term_name, new)\n            elif",
 'replacing an object which occupies two inputs of one node, or one input while another input contains it', 'only the first occurrence is replaced', '''
x = Ch(np.array([2.,3.])); y = Ch(np.array([5.,7.])); e = ch.multiply(a=x, b=x) + 1
e.replace(x, y)
assert np.allclose(e.r, [26., 50.]), e.r
'''),
('s15', 'C15', 'optimization_internal.py', "                    obj.x = ch.Ch(state.p)\n                    obj.on_changed('x') # copies from flat vector to free variables\n", "                    obj.x = ch.Ch(state.p)\n",
 'a minimization that ends right after a rejected trial step (budget of function evaluations used up)', 'the free variables keep the rejected values, with a larger sum of squares', '''
x = Ch(np.array([2.])); e = ch.arctan(x)
f0 = (e.r**2).sum()
ch.minimize(e, [x], options=dict(disp=0, max_fevals=2))
assert (e.r**2).sum() <= f0, (x.r, e.r)
'''),
('s16', 'C16', 'optimization_internal.py', "            self.delta = max(self.delta, 2.5*np.linalg.norm(self.d_dl))\n", "            self.delta = 2.5*np.linalg.norm(self.d_dl)\n",
 'a very good step much shorter than the radius', 'the radius is lowered after a good step', '''
from chumpy.optimization_internal import DoglegState
s = DoglegState(delta=10., solve=None); s.d_dl = np.array([1., 0.])
s.updateRadius(.95)
assert s.delta == 10., s.delta
'''),
('s17', 'C17', 'optimization_internal.py', "                        idxs = idxs[selects.pop()]\n", "                        idxs = idxs[selects.pop(0)]\n",
 'a free variable that is a selection of a selection of a selection', 'other entries of the variable are moved', '''
x = Ch(np.arange(1., 9.)); f = x[1:8][::2][[3, 1]]
t = Ch(np.array([50., 60.])); old = x.r.copy()
ch.minimize(f - t, [f], options=dict(disp=0))
want = old.copy(); want[7] = 50.; want[3] = 60.
assert np.allclose(x.r, want), x.r
'''),
('s18', 'C18', 'optimization.py', "            cur += sz\n", "                cur += sz\n",
 'two free variables, the first of which a trial vector leaves unchanged', 'the second variable gets the segment of the first', '''
import scipy.optimize
x, y = Ch(np.array([1., 2.])), Ch(np.array([3., 4.])); e = ch.sum(x * 2. + y * 10.)
out = {}
class R: pass
def fake(method, fun, callback, x0, jac, hessp, hess, args, **k):
    out['f'] = fun(np.array([1., 2., 5., 6.]), *args)
    r = R(); r.x = x0; return r
scipy.optimize.minimize = fake
ch.minimize(e, [x, y], method='BFGS')
assert np.allclose(out['f'], 116.), out['f']
'''),
('s19', 'C19', 'ch.py', "            if not self.args[argname].x is getattr(self, argname) :\n", "            if not np.array_equal(np.asarray(self.args[argname].x), np.asarray(getattr(self, argname))) :\n",
 'an argument of a grouped expression is replaced by another object that happens to have the same value', 'the Jacobian with respect to the new argument is missing', '''
from chumpy.ch import ChGroup
a, b = Ch(np.array([1., 2.])), Ch(np.array([3., 4.]))
inner = Ch(lambda p, q : p * q); inner.p = a; inner.q = b
e = ChGroup(result=inner, args=dict(p=a, q=b)); e.r
n = Ch(np.array([1., 2.])); e.p = n; e.r
J = e.dr_wrt(n); assert J is not None
J = np.asarray(J.todense() if sp.issparse(J) else J)
assert np.allclose(J, np.diag([3., 4.])), J
'''),
('s20', 'C20', 'ch.py', "                result = sp.csc_matrix(result)\n                import gc\n", "                result = sp.csc_matrix(np.where(np.abs(result) > 1e-10 * np.abs(result).max(), result, 0.))\n                import gc\n",
 'a mostly-zero dense Jacobian with entries of very different magnitude', 'the small entries are lost when it is stored sparse', '''
class T(Ch):
    dterms = 'x'
    def compute_r(self): return self.x.r[0] * 1e12 + self.x.r[1] * np.ones(20) * 0
    def compute_dr_wrt(self, wrt):
        if wrt is self.x:
            J = np.zeros((20, 20)); J[0, 0] = 1e12; J[3, 1] = 1.; return J
x = Ch(np.ones(20)); J = T(x=x).dr_wrt(x)
J = np.asarray(J.todense() if sp.issparse(J) else J)
assert J[3, 1] == 1. and J[0, 0] == 1e12, (J[3, 1], J[0, 0])
'''),
('s22', 'C02', 'reordering.py', "    def unique_reorder_id(self): return (self.a.shape, self.axis1, self.axis2)\n", "    def unique_reorder_id(self): return (self.a.shape, self.axis1 + self.axis2)\n",
 'swapaxes of rank 4 (or with negative axes) whose axes are changed to another pair with the same sum', 'the selection matrix of the earlier pair of axes is returned', """
def dn(J): return np.asarray(J.todense() if sp.issparse(J) else J)
a = Ch(np.arange(16.).reshape(2,2,2,2)); e = ch.swapaxes(a, 0, 3); e.dr_wrt(a); e.axis1 = 1; e.axis2 = 2
J = dn(e.dr_wrt(a))
assert np.allclose(J.dot(a.r.ravel()), e.r.ravel())
"""),
('s23', 'C10', 'reordering.py', "    shape = np.squeeze(a.r, axis).shape", "    shape = np.squeeze(a.r, axis or None).shape",
 'squeezing axis 0 of an array that has another axis of length one', 'the other axis is removed as well', """
a = Ch(np.ones((1, 3, 1)))
assert ch.squeeze(a, 0).shape == (3, 1), ch.squeeze(a, 0).shape
"""),
('s24', 'C13', 'ch.py', "        del result['_parents']\n        del result['_cache']\n", "        del result['_parents']\n        del result['_cache']; result['_dirty_vars'] = set()\n",
 'copying an operation whose change callback has not yet seen a change of one of its non-differentiable inputs', 'the copy is never told of the change and uses the state remembered for the old input', """
import pickle
class P(Ch):
    dterms = 'a'; terms = 't'
    def on_changed(self, which):
        if 't' in which: self.__dict__['m'] = self.t * 2.
    def compute_r(self): return self.a.r * self.__dict__['m']
    def compute_dr_wrt(self, wrt): return None
p = P(a=np.ones(2), t=1.); p.r; p.t = 5.
c = p.copy()
assert np.allclose(c.r, 10.), c.r
"""),
('s25', 'C16', 'optimization_internal.py', "                    self.d_gn = lsqr(self.A, self.g)[0].ravel()\n", "                    self.d_gn = lsqr(self.A, -self.g)[0].ravel()\n",
 'sparse normal equations that are singular (a residual that does not depend on one free entry)', 'the Gauss-Newton step points uphill', """
from chumpy.optimization_internal import DoglegState, setup_sparse_solver
J = sp.csc_matrix(np.array([[1., 0.], [2., 0.], [0., 0.]]))
s = DoglegState(delta=None, solve=setup_sparse_solver('spsolve')); s.p = np.zeros(2); s.J = J; s.r = np.array([1., 2., 3.])
s.start_iteration(); s.update_step()
d = np.asarray(s.step).ravel()
assert np.allclose(J.T.dot(J).dot(d), np.asarray(s.g).ravel(), atol=1e-6), d
"""),
('s26', 'C20', 'ch.py', "                return rhs.T.dot(lhs.T).T\n", "                return rhs.T.dot(lhs.T).T if lhs.shape[0] != rhs.shape[1] else rhs.T.dot(lhs.T)\n",
 'a dense square product with a sparse right factor', 'the product is transposed', """
x = Ch(np.array([1., 2.]))
A = np.array([[1., 2.], [3., 4.]]); B = sp.csc_matrix(np.array([[0., 1.], [5., 0.]]))
assert np.allclose(x._superdot(A, B), A.dot(B.toarray())), x._superdot(A, B)
"""),
('s11', 'C11', 'ch_ops.py', "            result.data = data.ravel()\n        else: # assumed scalar\n            result.data = np.empty(result.nnz)\n            result.data.fill(data)\n", "            result.data = data.ravel()\n        else: # assumed scalar\n            result.data.fill(data)\n",
 'two additions or subtractions of arrays of one shape, the Jacobian of the first kept while the second is differentiated', 'the Jacobian returned earlier is overwritten', D + """
a = Ch(np.arange(3.)); b = Ch(np.ones(3))
J = (a+b).dr_wrt(b); before = dn(J).copy()
(a-b).dr_wrt(b)
assert np.array_equal(dn(J), before), dn(J)
"""),
('s12', 'C12', 'ch.py', "                if issubclass(inner.__class__, Permute):\n                    inner = inner.a\n                else: \n", "                if len(inner.dterms) == 1 and hasattr(inner, 'a'):\n                    inner = inner.a\n                else: \n",
 'assignment through an operation of one input that is not a view, such as a clipped or accumulated variable', 'the assignment is not refused and changes an entry of the variable', """
x = Ch(np.array([3., 4., 5.])); e = ch.clip(x, 0., 4.5)
try: e[0] = 7.
except Exception: pass
else: raise AssertionError('not refused')
assert np.array_equal(x.r, [3., 4., 5.]), x.r
"""),
('s21', 'C21', 'ch.py', "    if cls not in _dep_props_for_dict:\n", "    cls = next((c for c in cls.__mro__ if c in _dep_props_for_dict and c is not Ch), cls)\n    if not cls in _dep_props_for_dict:\n",
 'a class derived from an operation that has been used already, which declares a dependent property of its own', 'the property of the derived class is not set up', """
class A(Ch):
    dterms = 'a'
    def compute_r(self): return self.a.r * 2.
    def compute_dr_wrt(self, wrt): return None
A(np.ones(2)).r
class B(A):
    @ch.depends_on('a')
    def prop(self): return self.a.r + 1.
    def compute_r(self): return self.prop
assert np.allclose(B(np.ones(2)).r, 2.)
"""),
('s27', 'C10', 'np_tensordot.py', "axes_b[k] += ndb", "axes_b[k] += nda",
 'tensordot of arrays of different ranks with a negative axis given for the second one', 'another axis is contracted', """
a = Ch(np.arange(8.).reshape(2,2,2)); b = Ch(np.array([[1.,2.],[3.,5.]]))
e = ch.tensordot(a, b, axes=([0], [-1]))
assert np.allclose(e.r, np.tensordot(a.r, b.r, axes=([0], [-1]))), e.r
"""),
]
