"""Tables of operations: how to make inputs, how to build the expression, what numpy says."""
import numpy as np
import scipy.special
import chumpy as ch
from chumpy.ch import Ch, MatVecMult

def g_any(r, s): return np.asarray(r.uniform(-2, 2, s))
def g_pos(r, s): return np.asarray(r.uniform(.3, 2.5, s))
def g_unit(r, s): return np.asarray(r.uniform(-.9, .9, s))
def g_nz(r, s): return np.asarray(r.uniform(.3, 2., s) * np.where(r.rand(*np.shape(np.zeros(s))) < .5, -1, 1))
def g_distinct(r, s):
    n = int(np.prod(s)) if s != () else 1
    return np.asarray((r.permutation(n) * .37 - n * .15 + .05 + r.uniform(-.1, .1, n)).reshape(s))

UNARY = [
 ('nan_to_num', g_any, np.nan_to_num), ('reciprocal', g_nz, np.reciprocal), ('square', g_any, np.square),
 ('sqrt', g_pos, np.sqrt), ('exp', g_any, np.exp), ('log', g_pos, np.log), ('sin', g_any, np.sin),
 ('arcsin', g_unit, np.arcsin), ('cos', g_any, np.cos), ('arccos', g_unit, np.arccos), ('tan', g_unit, np.tan),
 ('arctan', g_any, np.arctan), ('negative', g_any, np.negative), ('absolute', g_nz, np.absolute), ('abs', g_nz, np.absolute)]
UNARY0 = [('floor', np.floor), ('ceil', np.ceil), ('sign', np.sign)]
SHAPES = [(), (1,), (3,), (1, 1), (1, 3), (3, 1), (2, 3), (2, 1, 3), (2, 2, 2)]
BINARY = [
 ('add', g_any, g_any, np.add), ('subtract', g_any, g_any, np.subtract), ('multiply', g_any, g_any, np.multiply),
 ('divide', g_any, g_nz, np.divide), ('NanDivide', g_any, g_nz, np.divide), ('power', g_pos, g_any, np.power),
 ('maximum', g_any, g_any, np.maximum), ('minimum', g_any, g_any, np.minimum)]
BINARY0 = ['greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal']
PAIRS = [((3,), (3,)), ((1,), (3,)), ((3,), (1,)), ((2, 3), (3,)), ((3,), (2, 3)), ((2, 3), (2, 1)), ((2, 1), (1, 3)),
         ((1,), (1,)), ((), ()), ((), (2, 3)), ((2, 3), ()), ((1, 3), (1, 3)), ((2, 3, 2), (3, 1)), ((1, 1), (1,)), ((3, 1), (3,)),
         ((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 2)), ((3,), (3, 1)), ((1, 2, 1), (2, 1, 3)), ((4,), (4,)), ((2, 2, 1), (2, 2))]

def fill_pair(r, name, ga, gb, sa, sb):
    for _ in range(200):
        a, b = ga(r, sa), gb(r, sb)
        if name in ('maximum', 'minimum'):
            if np.abs(a - b).min() < .02: continue
        return a, b
    return a, b

# Rearranging operations: name, list of (shapes, args) draws, build(chs, *args), numpy(arrays, *args), setargs or None
def _t(*a): return a
def idx_cases():
    return [((5,), np.s_[1:3]), ((5,), np.s_[::-2]), ((5,), np.s_[2]), ((2, 3), np.s_[1]), ((2, 3), np.s_[:, 1]), ((2, 3), np.s_[:, ::-1]),
            ((2, 3), np.s_[None, :, 1:]), ((4,), np.array([3, 0, 0, 2])), ((2, 3), np.array([[True, False, True], [False, True, False]])),
            ((2, 3), (np.array([0, 1, 1]), np.array([2, 0, 2]))), ((2, 2, 3), np.s_[..., 1]), ((2, 2, 3), np.s_[1, :, -1]), ((1,), np.s_[0]), ((3, 1), np.s_[1:2, 0])]
REARR = []
def R(name, draws, build, npf, setargs=None, gen=g_any):
    REARR.append((name, draws, build, npf, setargs, gen))
for _s, _i in idx_cases():
    R('index%s[%s]' % (_s, str(_i).replace('\n', '')), [([_s], ())], (lambda i: lambda c: c[0][i])(_i), (lambda i: lambda a: a[0][i])(_i))
R('reshape', [([(2, 3)], ((3, 2),)), ([(6,)], ((3, 2),)), ([(2, 3)], ((-1,),)), ([(6,)], ((1, -1),)), ([(1,)], ((1, 1),)), ([(2, 3)], (6,))],
  lambda c, s: c[0].reshape(s), lambda a, s: a[0].reshape(s), lambda e, s: setattr(e, 'newshape', s))
R('reshape2', [([(2, 3)], ())], lambda c: c[0].reshape(3, 2).reshape(1, 6), lambda a: a[0].reshape(1, 6))
R('ravel', [([(2, 3)], ()), ([(1,)], ()), ([(2, 1, 2)], ())], lambda c: ch.ravel(c[0]), lambda a: a[0].ravel())
R('ravel.m', [([(2, 3)], ())], lambda c: c[0].ravel(), lambda a: a[0].ravel())
R('T', [([(2, 3)], ()), ([(3,)], ()), ([(1, 3)], ()), ([(2, 1, 3)], ())], lambda c: c[0].T, lambda a: a[0].T)
R('transpose', [([(2, 3, 2)], ((1, 2, 0),)), ([(2, 3, 2)], ((0, 2, 1),)), ([(3, 2, 2)], ((0, 2, 1),)), ([(2, 3, 2)], (None,)), ([(2, 2, 3)], ((2, 0, 1),)), ([(2, 2, 3)], ((1, 2, 0),))],
  lambda c, ax: ch.transpose(c[0], ax), lambda a, ax: np.transpose(a[0], ax), lambda e, ax: setattr(e, 'axes', ax))
R('swapaxes', [([(2, 3, 2)], (0, 1)), ([(2, 3, 2)], (2, 1)), ([(2, 3, 2)], (0, 2)), ([(3, 2, 2)], (0, 2)), ([(2, 3, 1)], (-1, 0))],
  lambda c, i, j: ch.swapaxes(c[0], i, j), lambda a, i, j: np.swapaxes(a[0], i, j), lambda e, i, j: e.set(axis1=i, axis2=j))
R('rollaxis', [([(2, 3, 2)], (2, 0)), ([(2, 3, 2)], (1, 0)), ([(2, 3, 2)], (0, 2)), ([(3, 2, 2)], (1, 0)), ([(2, 2, 2)], (1, 0)), ([(2, 2, 2)], (2, 0)), ([(2, 2, 2)], (0, 3))],
  lambda c, i, j: ch.rollaxis(c[0], i, j), lambda a, i, j: np.rollaxis(a[0], i, j), lambda e, i, j: e.set(axis=i, start=j))
R('rollaxis.d', [([(2, 3, 2)], ()), ([(2, 2, 3)], ())], lambda c: ch.rollaxis(c[0], 2), lambda a: np.rollaxis(a[0], 2))
R('roll', [([(5,)], (2, None)), ([(4,)], (2, None)), ([(4,)], (1, None)), ([(2, 2)], (1, None)), ([(2, 3)], (1, 1)), ([(2, 3)], (1, 0)), ([(2, 3)], (-2, 1)), ([(3, 2)], (1, 0))],
  lambda c, s, ax: ch.roll(c[0], s, ax), lambda a, s, ax: np.roll(a[0], s, ax), lambda e, s, ax: e.set(shift=s, axis=ax))
R('rot90', [([(2, 3)], (1,)), ([(2, 3)], (2,)), ([(2, 3)], (3,)), ([(3, 2)], (3,)), ([(2, 2)], (1,)), ([(2, 2)], (0,))],
  lambda c, k: ch.rot90(c[0], k), lambda a, k: np.rot90(a[0], k), lambda e, k: setattr(e, 'k', k))
R('tile', [([(3,)], ((2,),)), ([(3,)], ((2, 2),)), ([(2, 2)], ((1, 2),)), ([(2, 2)], ((2, 1),)), ([(4,)], ((2, 1),)), ([(3,)], (2,)), ([(1,)], ((3,),))],
  lambda c, k: ch.tile(c[0], k), lambda a, k: np.tile(a[0], k), lambda e, k: setattr(e, 'reps', k))
R('repeat', [([(3,)], (2, None)), ([(2, 2)], (2, 0)), ([(2, 2)], (2, 1)), ([(2, 2)], (3, 1)), ([(2, 3)], (2, 1)), ([(2, 2)], (2, None)), ([(3,)], ([1, 0, 2], 0))],
  lambda c, k, ax: ch.repeat(c[0], k, ax), lambda a, k, ax: np.repeat(a[0], k, ax), lambda e, k, ax: e.set(repeats=k, axis=ax))
R('sort', [([(4,)], (-1,)), ([(2, 3)], (-1,)), ([(2, 3)], (0,)), ([(3, 3)], (0,)), ([(3, 3)], (1,)), ([(1,)], (-1,))],
  lambda c, ax: ch.sort(c[0], ax), lambda a, ax: np.sort(a[0], ax), lambda e, ax: setattr(e, 'axis', ax), g_distinct)
R('diag', [([(3,)], (0,)), ([(3,)], (1,)), ([(3,)], (-1,)), ([(2, 3)], (0,)), ([(3, 3)], (1,)), ([(3, 3)], (-1,)), ([(1,)], (0,))],
  lambda c, k: ch.diag(c[0], k), lambda a, k: np.diag(a[0], k), lambda e, k: setattr(e, 'k', k))
R('diagflat', [([(3,)], (0,)), ([(2, 2)], (0,)), ([(2, 2)], (1,)), ([(2,)], (-1,))],
  lambda c, k: ch.diagflat(c[0], k), lambda a, k: np.diagflat(a[0], k), lambda e, k: setattr(e, 'k', k))
R('squeeze', [([(2, 1, 3)], ())], lambda c: ch.squeeze(c[0]), lambda a: np.squeeze(a[0]))
R('squeeze.m', [([(2, 1, 1)], ())], lambda c: c[0].squeeze(1), lambda a: a[0].squeeze(1))
R('expand_dims', [([(2, 3)], ())], lambda c: ch.expand_dims(c[0], 1), lambda a: np.expand_dims(a[0], 1))
R('fliplr', [([(2, 3)], ())], lambda c: ch.fliplr(c[0]), lambda a: np.fliplr(a[0]))
R('flipud', [([(2, 3)], ())], lambda c: ch.flipud(c[0]), lambda a: np.flipud(a[0]))
for _n in (1, 2, 3):
    R('atleast_%dd' % _n, [([_s], ()) for _s in ((), (1,), (3,), (2, 3), (2, 1, 2))],
      (lambda n: lambda c: getattr(ch, 'atleast_%dd' % n)(c[0]))(_n), (lambda n: lambda a: getattr(np, 'atleast_%dd' % n)(a[0]))(_n))
R('concatenate', [([(2, 3), (1, 3)], (0,)), ([(2, 3), (2, 3)], (0,)), ([(2, 3), (2, 3)], (1,)), ([(2, 1), (2, 3)], (1,)), ([(2, 2, 2), (2, 2, 2)], (2,)), ([(2, 2, 2), (2, 2, 1)], (2,)), ([(2, 2, 2), (2, 2, 2)], (1,))],
  lambda c, ax: ch.concatenate(c, axis=ax), lambda a, ax: np.concatenate(a, axis=ax), lambda e, ax: setattr(e, 'axis', ax))
R('concatenate1', [([(2,), (1,), (3,)], ()), ([(1,), (1,), (1,)], ()), ([(3,), (2,), (1,)], ())], lambda c: ch.concatenate(c), lambda a: np.concatenate(a))
R('concat.dup', [([(2, 2), (1, 2)], ()), ([(1, 2), (3, 2)], ())], lambda c: ch.concatenate([c[0], c[1], c[0]]), lambda a: np.concatenate([a[0], a[1], a[0]]))
R('concat.dup1', [([(2, 3), (2, 1)], ())], lambda c: ch.concatenate([c[0], c[1], c[0], c[0]], axis=1), lambda a: np.concatenate([a[0], a[1], a[0], a[0]], axis=1))
R('concat.nested', [([(2,), (3,), (1,)], ())], lambda c: ch.concatenate([ch.concatenate([c[0], c[1]]), c[2], c[0]]), lambda a: np.concatenate([a[0], a[1], a[2], a[0]]))
R('concat.nested.ax', [([(2, 2), (2, 2), (2, 4)], ())], lambda c: ch.concatenate([ch.concatenate([c[0], c[1]], axis=1), c[2]], axis=0), lambda a: np.concatenate([np.concatenate([a[0], a[1]], axis=1), a[2]], axis=0))
R('concat.neg', [([(2, 2), (2, 3)], ()), ([(3, 1), (3, 2)], ())], lambda c: ch.concatenate(c, axis=-1), lambda a: np.concatenate(a, axis=-1))
R('concat.none', [([(2, 2), (3,)], ()), ([(1,), (2, 1, 2)], ())], lambda c: ch.concatenate([c[0], c[1], c[0]], axis=None), lambda a: np.concatenate([a[0], a[1], a[0]], axis=None))
R('hstack', [([(2, 2), (2, 1)], ())], lambda c: ch.hstack(c), lambda a: np.hstack(a))
R('hstack1', [([(2,), (1,)], ())], lambda c: ch.hstack(c), lambda a: np.hstack(a))
R('vstack', [([(2, 2), (1, 2)], ()), ([(3,), (3,)], ()), ([(2, 3), (3,)], ())], lambda c: ch.vstack(c), lambda a: np.vstack(a))
R('dstack4', [([(2, 1, 2, 2), (2, 1, 3, 2)], ()), ([(1, 2, 1, 2), (1, 2, 2, 2)], ())], lambda c: ch.dstack(c), lambda a: np.dstack(a))
R('hstack3', [([(2, 2, 2), (2, 1, 2)], ())], lambda c: ch.hstack(c), lambda a: np.hstack(a))
R('vstack3', [([(2, 2, 2), (1, 2, 2)], ())], lambda c: ch.vstack(c), lambda a: np.vstack(a))
R('dstack', [([(2, 2), (2, 2)], ()), ([(3,), (3,)], ())], lambda c: ch.dstack(c), lambda a: np.dstack(a))

# Reductions and products
RED = []
def D(name, draws, build, npf, setargs=None, gen=g_any):
    RED.append((name, draws, build, npf, setargs, gen))
AX = [([(3,)], (None,)), ([(3,)], (0,)), ([(2, 3)], (None,)), ([(2, 3)], (0,)), ([(2, 3)], (1,)), ([(2, 3)], (-1,)), ([(3, 2)], (0,)), ([(3, 2)], (1,)), ([(2, 3)], (-2,)),
      ([(2, 3, 2)], (1,)), ([(2, 3, 2)], (2,)), ([(2, 3, 2)], (-3,)), ([(1, 3)], (0,)), ([(1, 3)], (1,)), ([(3, 1)], (1,)), ([()], (None,)), ([(1,)], (0,)), ([(1, 1)], (0,)), ([(2, 2)], (0,)), ([(2, 2)], (1,)), ([(4,)], (None,)), ([(2, 2)], (None,)),
      ([(2, 2, 4)], (1,)), ([(4, 2, 2)], (1,)), ([(2, 4, 2)], (1,)), ([(4, 4)], (1,)), ([(4, 4)], (0,)), ([(1, 4, 4)], (1,)), ([(4, 1, 4)], (0,)), ([(2, 8)], (0,)), ([(8, 2)], (1,)), ([(2, 2, 2, 2)], (2,)), ([(2, 2, 2, 2)], (-4,))]
_sa = lambda e, ax: setattr(e, 'axis', ax)
D('sum', AX, lambda c, ax: ch.sum(c[0], axis=ax), lambda a, ax: np.sum(a[0], axis=ax), _sa)
D('sum.m', AX[:6], lambda c, ax: c[0].sum(axis=ax), lambda a, ax: np.sum(a[0], axis=ax), _sa)
D('mean', AX, lambda c, ax: ch.mean(c[0], axis=ax), lambda a, ax: np.mean(a[0], axis=ax), _sa)
D('mean.m', AX[:6], lambda c, ax: c[0].mean(axis=ax), lambda a, ax: np.mean(a[0], axis=ax), _sa)
for _n in ('amax', 'amin', 'nanmax', 'nanmin', 'max', 'min'):
    D(_n, AX, (lambda n: lambda c, ax: getattr(ch, n)(c[0], axis=ax))(_n), (lambda n: lambda a, ax: getattr(np, n)(a[0], axis=ax))(_n), _sa, g_distinct)
D('max.m', AX[:6], lambda c, ax: c[0].max(axis=ax), lambda a, ax: np.max(a[0], axis=ax), _sa, g_distinct)
D('min.m', AX[:6], lambda c, ax: c[0].min(axis=ax), lambda a, ax: np.min(a[0], axis=ax), _sa, g_distinct)
D('sum.dflt', [([(2, 3)], ()), ([(3,)], ())], lambda c: ch.sum(c[0]), lambda a: np.sum(a[0]))
D('amax.dflt', [([(2, 3)], ()), ([(3,)], ())], lambda c: ch.amax(c[0]), lambda a: np.amax(a[0]), None, g_distinct)
D('SumOfSquares', [([(3,)], ()), ([(2, 3)], ()), ([(1,)], ()), ([()], ())], lambda c: ch.SumOfSquares(c[0]), lambda a: np.sum(a[0]**2))
D('cumsum', [([(4,)], ()), ([(2, 3)], ()), ([(1,)], ()), ([(3,)], ())], lambda c: ch.cumsum(c[0]), lambda a: np.cumsum(a[0]))
D('cumsum.m', [([(3,)], ())], lambda c: c[0].cumsum(), lambda a: np.cumsum(a[0]))
DOTS = [([(3,), (3,)], ()), ([(2, 3), (3,)], ()), ([(3,), (3, 2)], ()), ([(2, 3), (3, 2)], ()), ([(3, 2), (2, 4)], ()), ([(2, 2), (2, 2)], ()), ([(1, 3), (3, 1)], ()), ([(3, 1), (1, 2)], ()),
        ([(2, 2, 3), (3,)], ()), ([(2, 2, 3), (3, 2)], ()), ([(3,), (2, 3, 2)], ()), ([(2, 3), (2, 3, 2)], ()), ([(1,), (1,)], ()), ([(1, 1), (1, 3)], ()), ([(2, 1, 3), (2, 3, 2)], ())]
D('dot', DOTS, lambda c: ch.dot(c[0], c[1]), lambda a: np.dot(a[0], a[1]))
D('dot.m', DOTS[:5], lambda c: c[0].dot(c[1]), lambda a: np.dot(a[0], a[1]))
D('dot.same', [([(3,)], ()), ([(2, 2)], ()), ([(3, 3)], ())], lambda c: ch.dot(c[0], c[0]), lambda a: np.dot(a[0], a[0]))
D('dot.T', [([(2, 3)], ())], lambda c: c[0].dot(c[0].T), lambda a: np.dot(a[0], a[0].T))
TD = [([(2, 3, 2), (3, 2, 2)], (2,)), ([(2, 3), (3, 2)], (1,)), ([(2, 3, 2), (2, 3, 3)], ([[0, 1], [0, 1]],)), ([(2, 3, 2), (3, 2)], (((1, 2), (0, 1)),)), ([(2, 2, 3), (2, 3)], ([2, 1],)), ([(2,), (3,)], (0,)),
      ([(2, 3, 2), (2, 2, 3)], ([[1, 0], [2, 0]],)), ([(2, 3), (2, 2)], ([-2, 1],)), ([(2, 2, 2), (2, 2)], ([0, -1],)), ([(2, 3), (2, 2, 3)], ([[0, 1], [-2, -1]],)), ([(2, 2), (2, 2, 2)], (([-1], [-3]),))]
D('tensordot', TD, lambda c, ax: ch.tensordot(c[0], c[1], axes=ax), lambda a, ax: np.tensordot(a[0], a[1], axes=ax))
D('cross', [([(1, 3), (1, 3)], ()), ([(2, 3), (2, 3)], ()), ([(4, 3), (4, 3)], ()), ([(3, 3), (3, 3)], ()), ([(2, 3), (2, 3)], ()), ([(4, 3), (4, 3)], ()), ([(1, 3), (1, 3)], ())], lambda c: ch.cross(c[0], c[1]), lambda a: np.cross(a[0], a[1]))
D('cross.same', [([(2, 3)], ())], lambda c: ch.cross(c[0], c[0]), lambda a: np.cross(a[0], a[0]))
_M = np.arange(12.).reshape(4, 3) - 5.5
D('MatVecMult', [([(3,)], ()), ([(3, 1)], ())], lambda c: MatVecMult(_M, c[0]), lambda a: _M.dot(a[0].reshape(3)))
_M2 = np.arange(24.).reshape(4, 6) - 11.5
D('MatVecMult2', [([(3, 2)], ())], lambda c: MatVecMult(_M2, c[0]), lambda a: _M2.dot(a[0].reshape(6)).reshape(-1, a[0].shape[1]))

# Matrix functions
def g_inv(r, s):
    n = s[-1]
    return r.uniform(-.5, .5, s) + np.eye(n) * (1.5 + np.arange(n))
def g_full(r, s):
    u, d, w = np.linalg.svd(r.uniform(-.5, .5, s) + np.eye(s[0], s[1]) * (1.5 + .8 * np.arange(s[1])), full_matrices=False)
    return (u * (1. + 1.1 * np.arange(d.size)[::-1] + r.uniform(-.25, .25, d.size))).dot(w) # well separated singular values
LIN = []
def L(name, draws, build, npf, gen):
    LIN.append((name, draws, build, npf, None, gen))
_sq = [([(n, n)], ()) for n in (1, 2, 3, 4)]
L('inv', _sq + [([(2, 3, 3)], ()), ([(2, 2, 2, 2)], ()), ([(3, 2, 2)], ()), ([(2, 2, 2)], ()), ([(3, 3, 3)], ()), ([(1, 1, 1)], ())], lambda c: ch.linalg.inv(c[0]), lambda a: np.linalg.inv(a[0]), g_inv)
L('det', _sq, lambda c: ch.linalg.det(c[0]), lambda a: np.linalg.det(a[0]), g_inv)
L('slogdet1', _sq, lambda c: ch.linalg.slogdet(c[0])[1], lambda a: np.linalg.slogdet(a[0])[1], g_inv)
L('slogdet1neg', [([(2, 2)], ()), ([(3, 3)], ())], lambda c: ch.linalg.slogdet(c[0])[1], lambda a: np.linalg.slogdet(a[0])[1], lambda r, s: g_inv(r, s)[::-1])
L('pinv', [([(3, 2)], ()), ([(2, 3)], ()), ([(2, 2)], ()), ([(4, 2)], ()), ([(1, 3)], ()), ([(3, 1)], ())], lambda c: ch.linalg.pinv(c[0]), lambda a: np.linalg.pinv(a[0]), g_full)
L('lstsq', [([(3, 2), (3,)], ()), ([(4, 2), (4, 2)], ()), ([(2, 2), (2,)], ())], lambda c: ch.linalg.lstsq(c[0], c[1])[0], lambda a: np.linalg.lstsq(a[0], a[1], rcond=-1)[0],
  lambda r, s: g_full(r, s) if len(s) == 2 and s[1] < 3 and s != (4,) else g_any(r, s))
L('lstsq.res', [([(3, 2), (3,)], ()), ([(4, 2), (4, 2)], ())], lambda c: ch.linalg.lstsq(c[0], c[1])[1], lambda a: np.linalg.lstsq(a[0], a[1], rcond=-1)[1],
  lambda r, s: g_full(r, s) if len(s) == 2 else g_any(r, s))
L('norm', [([(3,)], ()), ([(2, 3)], ()), ([(1,)], ())], lambda c: ch.linalg.norm(c[0]), lambda a: np.linalg.norm(a[0]), g_nz)
_sv = [([(2, 2)], ()), ([(3, 2)], ()), ([(2, 3)], ()), ([(3, 3)], ()), ([(4, 2)], ())]
for _k in range(3):
    L('svd%d' % _k, _sv, (lambda k: lambda c: ch.linalg.svd(c[0])[k])(_k), (lambda k: lambda a: np.linalg.svd(a[0], full_matrices=False)[k])(_k), g_full)

# ------------------------------------------------------------------ random arguments
def rshape(r, lo=1, hi=4, cap=36):
    while True:
        s = tuple(int(x) for x in r.choice([1, 1, 2, 2, 3, 4], r.randint(lo, hi + 1)))
        if np.prod(s) <= cap: return s
def raxis(r, n): return int(r.randint(-n, n))
def rkey(r, s):
    """an index numpy accepts, selecting at least one entry"""
    while True:
        kind = r.randint(4)
        if kind == 0: k = r.rand(*s) < .6                                                   # truth values
        elif kind == 1:
            n = r.randint(1, 4); k = tuple(r.randint(-d, d, n) for d in s[:r.randint(1, len(s) + 1)])
            if len(k) == 1: k = k[0]
        else:
            k = []
            for d in s:
                c = r.randint(7)
                if c == 0: k.append(int(r.randint(-d, d)))
                elif c == 1: k.append(slice(None, None, int(r.choice([-2, -1, 2]))))
                elif c == 2: k.append(slice(int(r.randint(-d, d)), None))
                elif c == 3: k.append(slice(None, int(r.randint(-d, d + 1))))
                elif c == 4: k.append(list(int(x) for x in r.randint(-d, d, r.randint(1, 3))) if kind == 3 and not any(isinstance(q, list) for q in k) else slice(None))
                else: k.append(slice(None))
            k = k[:r.randint(1, len(k) + 1)]
            if r.rand() < .25: k.insert(r.randint(len(k) + 1), None)
            if r.rand() < .25: k.insert(r.randint(len(k) + 1), Ellipsis)
            k = tuple(k) if len(k) > 1 or r.rand() < .5 else k[0]
            if isinstance(k, list): k = np.array(k)
        try:
            if np.zeros(s)[k].size: return k
        except IndexError: pass
def rfactor(r, n):
    out = []
    while n > 1:
        d = int(r.choice([x for x in range(2, n + 1) if n % x == 0])); out.append(d); n //= d
    for _ in range(r.randint(3)): out.insert(r.randint(len(out) + 1), 1)
    if not out: out = [1]
    if r.rand() < .4: out[r.randint(len(out))] = -1
    return tuple(out)
def _valid(npf, shapes, args):
    try: v = npf([np.zeros(s) for s in shapes], *args)
    except Exception: return False
    return np.size(v) > 0 and np.size(v) <= 120
def draws_of(r, name):
    """(shapes, args) for one operation"""
    s = rshape(r)
    n = len(s)
    if name == 'index': return [s], (rkey(r, s),)
    if name == 'reshape': return [s], (rfactor(r, int(np.prod(s))),)
    if name == 'transpose':
        p = [int(x) for x in r.permutation(n)]; p = [x - n if r.rand() < .2 else x for x in p]
        return [s], (None if r.rand() < .2 else tuple(p) if r.rand() < .7 else p,)
    if name == 'swapaxes': return [s], (raxis(r, n), raxis(r, n))
    if name == 'rollaxis': return [s], (raxis(r, n), int(r.randint(-n, n + 1)))
    if name == 'roll':
        if r.rand() < .25: return [s], (tuple(int(x) for x in r.randint(-3, 4, n)), tuple(range(n)))
        return [s], (int(r.randint(-5, 6)), None if r.rand() < .3 else raxis(r, n))
    if name == 'rot90': return [rshape(r, 2, 3)], (int(r.randint(-5, 6)),)
    if name == 'tile': return [rshape(r, 1, 3, 12)], (int(r.randint(1, 4)) if r.rand() < .3 else tuple(int(x) for x in r.randint(1, 3, r.randint(1, 4))),)
    if name == 'repeat':
        ax = None if r.rand() < .3 else raxis(r, n); m = int(np.prod(s)) if ax is None else s[ax]
        return [s], (int(r.randint(1, 4)) if r.rand() < .5 else [int(x) for x in r.randint(0, 3, m)], ax)
    if name == 'sort': return [s], (None if r.rand() < .1 else raxis(r, n), str(r.choice(['quicksort', 'mergesort', 'heapsort', 'stable'])))
    if name == 'diag': return [rshape(r, 1, 2)], (int(r.randint(-3, 4)),)
    if name == 'diagflat': return [rshape(r, 1, 3, 6)], (int(r.randint(-2, 3)),)
    if name == 'squeeze':
        ones = [i - (n if r.rand() < .3 else 0) for i, d in enumerate(s) if d == 1]
        if not ones or r.rand() < .2: return [s], (None,)
        return [s], (int(r.choice(ones)) if r.rand() < .7 else tuple(ones[:r.randint(1, len(ones) + 1)]),)
    if name == 'expand_dims': return [rshape(r, 1, 3)], (int(r.randint(-n, n + 1)),)
    if name == 'fliplr': return [rshape(r, 2, 4)], ()
    if name in ('concatenate', 'concatenate.same'):
        s = list(rshape(r, 1, 3, 12)); ax = raxis(r, len(s)); k = r.randint(1, 4); out = []
        for _ in range(k):
            q = list(s); q[ax] = int(r.randint(1, 4)); out.append(tuple(q))
        return out, (ax,)
    if name in ('hstack', 'vstack', 'dstack'):
        s = list(rshape(r, 1, 4, 16)); ax = {'hstack': 1 if len(s) > 1 else 0, 'vstack': 0, 'dstack': 2}[name]; out = []
        for _ in range(r.randint(1, 4)):
            q = list(s)
            if ax < len(s) and not (name == 'vstack' and len(s) == 1): q[ax] = int(r.randint(1, 4))
            out.append(tuple(q))
        return out, ()
    if name in ('sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin', 'sum.m', 'mean.m', 'max.m', 'min.m'): return [s], (None if r.rand() < .2 else raxis(r, n),)
    if name == 'dot':
        k = int(r.randint(1, 4)); a = rshape(r, 0, 2, 6) + (k,); b = rshape(r, 0, 2, 6)
        return [a, b[:-1] + (k,) + b[-1:]], ()
    if name == 'tensordot':
        k = r.randint(0, 3); com = [int(x) for x in r.randint(1, 4, k)]
        a = [int(x) for x in r.randint(1, 3, r.randint(0 if k else 1, 3))]; b = [int(x) for x in r.randint(1, 3, r.randint(0 if k else 1, 3))]
        if r.rand() < .3: return [tuple(a + com), tuple(com + b)], (k,)
        pa, pb = list(r.permutation(len(a) + k)), list(r.permutation(len(b) + k))
        A, B = a + com, b + com
        sa, sb = [A[i] for i in pa], [B[i] for i in pb]
        xa, xb = [pa.index(len(a) + i) for i in range(k)], [pb.index(len(b) + i) for i in range(k)]
        xa = [x - len(pa) if r.rand() < .2 else x for x in xa]; xb = [x - len(pb) if r.rand() < .2 else x for x in xb]
        if k == 1 and r.rand() < .4: return [tuple(sa), tuple(sb)], ((xa[0], xb[0]),)
        return [tuple(sa), tuple(sb)], ((xa, xb),)
    if name in ('cross', 'cross.same'): k = int(r.randint(1, 6)); return [(k, 3)] * (1 if name == 'cross.same' else 2), ()
    return [s], ()
RAND2 = [
 ('index', lambda c, k: c[0][k], lambda a, k: a[0][k], None), ('reshape', lambda c, s: c[0].reshape(s), lambda a, s: a[0].reshape(s), None),
 ('transpose', lambda c, ax: ch.transpose(c[0], ax), lambda a, ax: np.transpose(a[0], ax), lambda e, ax: setattr(e, 'axes', ax)),
 ('swapaxes', lambda c, i, j: ch.swapaxes(c[0], i, j), lambda a, i, j: np.swapaxes(a[0], i, j), lambda e, i, j: e.set(axis1=i, axis2=j)),
 ('rollaxis', lambda c, i, j: ch.rollaxis(c[0], i, j), lambda a, i, j: np.rollaxis(a[0], i, j), lambda e, i, j: e.set(axis=i, start=j)),
 ('roll', lambda c, s, ax: ch.roll(c[0], s, ax), lambda a, s, ax: np.roll(a[0], s, ax), lambda e, s, ax: e.set(shift=s, axis=ax)),
 ('rot90', lambda c, k: ch.rot90(c[0], k), lambda a, k: np.rot90(a[0], k), lambda e, k: setattr(e, 'k', k)),
 ('tile', lambda c, k: ch.tile(c[0], k), lambda a, k: np.tile(a[0], k), lambda e, k: setattr(e, 'reps', k)),
 ('repeat', lambda c, k, ax: ch.repeat(c[0], k, ax), lambda a, k, ax: np.repeat(a[0], k, ax), lambda e, k, ax: e.set(repeats=k, axis=ax)),
 ('sort', lambda c, ax, kd: ch.sort(c[0], ax, kd), lambda a, ax, kd: np.sort(a[0], ax, kd), lambda e, ax, kd: e.set(axis=ax, kind=kd)),
 ('diag', lambda c, k: ch.diag(c[0], k), lambda a, k: np.diag(a[0], k), lambda e, k: setattr(e, 'k', k)),
 ('diagflat', lambda c, k: ch.diagflat(c[0], k), lambda a, k: np.diagflat(a[0], k), lambda e, k: setattr(e, 'k', k)),
 ('squeeze', lambda c, ax: ch.squeeze(c[0], ax), lambda a, ax: np.squeeze(a[0], ax), None),
 ('squeeze', lambda c, ax: c[0].squeeze(ax), lambda a, ax: np.squeeze(a[0], ax), None),
 ('expand_dims', lambda c, ax: ch.expand_dims(c[0], ax), lambda a, ax: np.expand_dims(a[0], ax), None),
 ('fliplr', lambda c: ch.fliplr(c[0]), lambda a: np.fliplr(a[0]), None), ('flipud', lambda c: ch.flipud(c[0]), lambda a: np.flipud(a[0]), None),
 ('atleast_1d', lambda c: ch.atleast_1d(c[0]), lambda a: np.atleast_1d(a[0]), None), ('atleast_2d', lambda c: ch.atleast_2d(c[0]), lambda a: np.atleast_2d(a[0]), None),
 ('atleast_3d', lambda c: ch.atleast_3d(c[0]), lambda a: np.atleast_3d(a[0]), None), ('ravel', lambda c: ch.ravel(c[0]), lambda a: np.ravel(a[0]), None),
 ('concatenate', lambda c, ax: ch.concatenate(c, axis=ax), lambda a, ax: np.concatenate(a, axis=ax), None),
 ('concatenate.same', lambda c, ax: ch.concatenate(c + [c[0]], axis=ax), lambda a, ax: np.concatenate(a + [a[0]], axis=ax), None),
 ('hstack', lambda c: ch.hstack(c), lambda a: np.hstack(a), None), ('vstack', lambda c: ch.vstack(c), lambda a: np.vstack(a), None), ('dstack', lambda c: ch.dstack(c), lambda a: np.dstack(a), None)]
RAND3 = [(n, (lambda n: lambda c, ax: getattr(ch, n)(c[0], axis=ax))(n), (lambda n: lambda a, ax: getattr(np, n)(a[0], axis=ax))(n), _sa) for n in ('sum', 'mean', 'amax', 'amin', 'nanmax', 'nanmin')]
RAND3 += [(n + '.m', (lambda n: lambda c, ax: getattr(c[0], n)(axis=ax))(n), (lambda n: lambda a, ax: getattr(np, n)(a[0], axis=ax))(n), _sa) for n in ('sum', 'mean', 'max', 'min')]
RAND3 += [('cumsum', lambda c: ch.cumsum(c[0]), lambda a: np.cumsum(a[0]), None), ('SumOfSquares', lambda c: ch.SumOfSquares(c[0]), lambda a: np.sum(a[0]**2), None),
 ('dot', lambda c: ch.dot(c[0], c[1]), lambda a: np.dot(a[0], a[1]), None), ('tensordot', lambda c, ax: ch.tensordot(c[0], c[1], axes=ax), lambda a, ax: np.tensordot(a[0], a[1], axes=ax), None),
 ('cross', lambda c: ch.cross(c[0], c[1]), lambda a: np.cross(a[0], a[1]), None), ('cross.same', lambda c: ch.cross(c[0], c[0]), lambda a: np.cross(a[0], a[0]), None)]
def random_table(r, table, per=2):
    """entries like those of REARR and RED, with arguments drawn at random"""
    out = []
    for name, build, npf, setargs in table:
        ds = []
        for _ in range(40):
            if len(ds) == (per if setargs is not None else 1): break
            shapes, args = draws_of(r, name)
            if ds and len(ds[0][0]) != len(shapes): continue
            if _valid(npf, shapes, args): ds.append((shapes, args))
        gen = g_distinct if name in ('sort', 'amax', 'amin', 'nanmax', 'nanmin', 'max.m', 'min.m') else g_any
        out.append(('random ' + name, ds, build, npf, setargs, gen))
    return out
