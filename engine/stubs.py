"""Stub modules standing for numpy/scipy while the repository's modules are loaded for verification.
Anything not given a meaning raises Unsupported when used."""
import types, sys, inspect
import core

if not hasattr(inspect, 'getargspec'):
    def _gas(f):
        s = inspect.getfullargspec(f)
        import collections
        return collections.namedtuple('ArgSpec', 'args varargs keywords defaults')(s.args, s.varargs, s.varkw, s.defaults)
    inspect.getargspec = _gas

class StubFn(object):
    def __init__(self, path): self.__dict__['_path'] = path; self.__dict__['__name__'] = path.split('.')[-1]
    def __call__(self, *a, **k):
        c = core.CTX
        if c is not None: c.unsupported = c.unsupported or 'call of %s' % self._path
        raise core.Unsupported('call of %s' % self._path)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubFn(self._path + '.' + n)
    def __repr__(self): return '<%s>' % self._path
    def __hash__(self): return hash(self._path)
    def __eq__(self, o): return isinstance(o, StubFn) and o._path == self._path

class StubMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        v = StubFn(self.__name__ + '.' + n)
        setattr(self, n, v)
        return v

class NoDeriv(object): pass

def mod(name, **kw):
    m = StubMod(name); m.__path__ = []
    for k, v in kw.items(): setattr(m, k, v)
    return m

class Float64(object):
    """stands for np.float64 as a dtype token"""

def base_stubs():
    six = mod('six'); moves = mod('six.moves'); six.moves = moves
    import pickle
    moves.cPickle = pickle; six.string_types = (str,)
    class LinearOperator(object): pass
    np = mod('numpy', pi=3.141592653589793, inf=float('inf'), float64=Float64, uint32='uint32', int64='int64')
    class ndarray(object): pass
    np.ndarray = ndarray
    np.random = mod('numpy.random'); np.linalg = mod('numpy.linalg')
    sp = mod('scipy.sparse'); spl = mod('scipy.sparse.linalg', LinearOperator=LinearOperator)
    interface = mod('scipy.sparse.linalg.interface', LinearOperator=LinearOperator); spl.interface = interface
    sp.linalg = spl
    scipy = mod('scipy'); scipy.sparse = sp; scipy.optimize = mod('scipy.optimize'); scipy.special = mod('scipy.special')
    return {'numpy': np, 'numpy.random': np.random, 'numpy.linalg': np.linalg, 'scipy': scipy, 'scipy.sparse': sp, 'scipy.sparse.linalg': spl,
            'scipy.sparse.linalg.interface': interface, 'scipy.optimize': scipy.optimize, 'scipy.special': scipy.special, 'six': six, 'six.moves': moves, 'six.moves.cPickle': pickle}
