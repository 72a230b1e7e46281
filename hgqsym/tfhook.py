"""Hooks that let eager Python code of HGQ run on symbolic arrays.

While a symbolic context is active and TensorFlow executes eagerly:
  * tf.* / K.* functions used by HGQ modules, tf.function objects and Keras layers that receive symbolic arrays (or read
    variables that hold symbolic values) are traced by the real TensorFlow tracer and interpreted by tfgraph;
  * every variable assignment goes to an overlay (tfgraph.STORE), so the real variables are never changed.
Nothing in /repo is edited; outside a symbolic context the hooks do nothing.
"""
import functools
import sys
import types

import numpy as np
import tensorflow as tf
from tensorflow.python.eager.polymorphic_function import polymorphic_function as pf
from tensorflow.python.ops import resource_variable_ops as rvo

from . import core, tfgraph
from .core import SB, Unsupported, z3
from .symarray import SymArray, as_sym, cast, norm, obj
from .tfgraph import STORE


ENABLED = [True]


def active():
    return core.CTX is not None and ENABLED[0] and tf.executing_eagerly()


class real_world:
    """Run the unmodified code: no symbolic context, no overlay."""

    def __enter__(self):
        self.c, core.CTX = core.CTX, None
        self.v, STORE.vals = STORE.vals, {}

    def __exit__(self, *a):
        core.CTX = self.c
        STORE.vals = self.v


def sym_var(x):
    return isinstance(x, rvo.BaseResourceVariable) and STORE.has(x)


def is_symbolic(x):
    if isinstance(x, (SymArray, core._Num, SB)):
        return True
    if sym_var(x):
        return True
    return False


def var_value(v):
    if STORE.has(v):
        return STORE.get(v)
    return _orig['numpy'](v)


def unwrap(x):
    if isinstance(x, rvo.BaseResourceVariable):
        return var_value(x)
    if isinstance(x, tf.Tensor) and hasattr(x, 'numpy'):
        return x.numpy()
    return x


def to_sym_leaf(x):
    if isinstance(x, rvo.BaseResourceVariable):
        return STORE.get(x)
    if isinstance(x, SymArray):
        return x
    if isinstance(x, SB):
        return SymArray(obj(x), bool)
    return SymArray(obj(x), np.float32)


def trace_call(fn, args, kwargs, key=None):
    """Call fn symbolically: symbolic leaves become graph inputs, everything else is passed through unchanged."""
    leaves = tf.nest.flatten((list(args), kwargs))
    idx = [i for i, l in enumerate(leaves) if isinstance(l, (SymArray, core._Num, SB))]
    vals = [to_sym_leaf(leaves[i]) for i in idx]
    struct = (list(args), kwargs)

    def g(*ts):
        ls = list(leaves)
        for i, t in zip(idx, ts):
            ls[i] = t
        a, k = tf.nest.pack_sequence_as(struct, ls)
        return fn(*a, **k)
    if key is not None:
        try:
            key = (key, tuple((i, v.shape, v.dtype.name) for i, v in zip(idx, vals)),
                   tuple(('t', l._id) if isinstance(l, tf.Tensor) else ('v', id(l)) if isinstance(l, tf.Variable) else (type(l).__name__, repr(l)) for i, l in enumerate(leaves) if i not in idx))
        except Exception:
            key = None
    hold = (fn, leaves)
    if key is not None and key not in tfgraph.TRACE_CACHE:
        _keep.append(hold)
    r = tfgraph.call_symbolic(g, *vals, key=key)
    return tf.nest.map_structure(lambda v: tf.constant(v) if isinstance(v, (np.ndarray, np.generic)) else v, r)


_keep = []


def any_symbolic(args, kwargs):
    return any(is_symbolic(l) for l in tf.nest.flatten((list(args), kwargs)))


# -- tf / K proxies ----------------------------------------------------------------------------------------------

class ModProxy(types.ModuleType):
    def __init__(self, mod):
        super().__init__(getattr(mod, '__name__', 'proxy'))
        self.__dict__['_mod'] = mod
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        cache = self.__dict__['_cache']
        if name in cache:
            return cache[name]
        v = getattr(self.__dict__['_mod'], name)
        w = wrap_value(v, name)
        cache[name] = w
        return w

    def __dir__(self):
        return dir(self.__dict__['_mod'])


_wrapped = {}
IDENTITY_KEEP = ('tensorflow.keras.activations', 'keras.activations')


def wrap_value(v, name):
    if isinstance(v, types.ModuleType):
        if name in ('layers', 'activations', 'initializers', 'regularizers', 'constraints', 'callbacks', 'models', 'saving'):
            return v
        return proxy(v)
    if v is tf.Variable:
        return VariableFactory
    if isinstance(v, type) or not callable(v):
        return v
    if name in ('function', 'init_scope', 'name_scope', 'nest', 'executing_eagerly', 'custom_gradient'):
        return v
    if v in _wrapped:
        return _wrapped[v]

    @functools.wraps(v)
    def w(*args, **kwargs):
        if active() and any_symbolic(args, kwargs):
            if name == 'constant':
                x = as_sym(args[0])
                dt = kwargs.get('dtype', args[1] if len(args) > 1 else None)
                return cast(x, tf.as_dtype(dt).as_numpy_dtype) if dt is not None else x
            args = [var_value(a) if sym_var(a) else a for a in args]
            args = tf.nest.map_structure(lambda a: var_value(a) if sym_var(a) else a, args)
            kwargs = tf.nest.map_structure(lambda a: var_value(a) if sym_var(a) else a, kwargs)
            return trace_call(v, args, kwargs, key=('api', id(v)))
        return v(*args, **kwargs)
    _wrapped[v] = w
    return w


class _VarMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tf.Variable)

    def __call__(cls, initial_value=None, *args, **kwargs):
        if active() and is_symbolic(initial_value):
            x = as_sym(initial_value)
            dt = kwargs.get('dtype')
            if dt is not None:
                x = as_sym(cast(x, tf.as_dtype(dt).as_numpy_dtype))
            kwargs.pop('dtype', None)
            v = tf.Variable(np.zeros(x.shape, dtype=x.dtype), *args, **kwargs)
            STORE.set(v, x)
            _keep.append(v)
            return v
        return tf.Variable(initial_value, *args, **kwargs)


class VariableFactory(metaclass=_VarMeta):
    pass


_proxies = {}


def proxy(mod):
    if isinstance(mod, ModProxy):
        return mod
    k = id(mod)
    if k not in _proxies:
        _proxies[k] = ModProxy(mod)
    return _proxies[k]


def install_proxies():
    import keras
    targets = {id(tf), id(keras), id(tf.keras)}
    for name, m in list(sys.modules.items()):
        if not (name == 'HGQ' or name.startswith('HGQ.')):
            continue
        for g, v in list(vars(m).items()):
            if isinstance(v, types.ModuleType) and not isinstance(v, ModProxy):
                vn = getattr(v, '__name__', '')
                if v is tf or vn.endswith('keras.backend') or vn.endswith('.backend'):
                    setattr(m, g, proxy(v))


# -- variables ---------------------------------------------------------------------------------------------------

_orig = {}


def _patch_variables():
    cls = rvo.BaseResourceVariable
    _orig['numpy'] = cls.numpy

    def numpy(self):
        if active() and STORE.has(self):
            return STORE.get(self)
        return _orig['numpy'](self)
    cls.numpy = numpy

    for nm in ('value', 'read_value'):
        def mk(nm):
            orig = getattr(cls, nm)

            def f(self, *a, **k):
                if active() and STORE.has(self):
                    return STORE.get(self)
                return orig(self, *a, **k)
            return f
        setattr(cls, nm, mk(nm))

    o_assign = rvo.ResourceVariable.assign

    def assign(self, value, *a, **k):
        if active():
            v = unwrap(value)
            if isinstance(v, (core._Num, SB)):
                v = SymArray(obj(v), self.dtype.as_numpy_dtype)
            dt = np.dtype(self.dtype.as_numpy_dtype)
            if isinstance(v, SymArray):
                if v.dtype != dt:
                    v = cast(v, dt)
            else:
                v = np.asarray(v, dtype=dt)
            if not self.shape.is_compatible_with(v.shape):
                raise ValueError(f'Cannot assign value to variable {self.name}: shape mismatch {self.shape} vs {v.shape}')
            STORE.set(self, v)
            return self
        return o_assign(self, value, *a, **k)
    cls.assign = rvo.ResourceVariable.assign = assign

    for nm, op in (('assign_add', np.add), ('assign_sub', np.subtract)):
        def mk(nm, op):
            orig = getattr(rvo.ResourceVariable, nm)

            def f(self, delta, *a, **k):
                if active():
                    return self.assign(op(var_value(self), unwrap(delta)))
                return orig(self, delta, *a, **k)
            return f
        f_ = mk(nm, op)
        setattr(cls, nm, f_)
        setattr(rvo.ResourceVariable, nm, f_)

    def array_ufunc(self, ufunc, method, *inputs, **kw):
        ins = [unwrap(x) for x in inputs]
        kw = {k: tuple(unwrap(v) for v in x) if k == 'out' else x for k, x in kw.items()}
        return getattr(ufunc, method)(*ins, **kw)

    def array_function(self, func, types_, args, kwargs):
        args = tf.nest.map_structure(unwrap, list(args))
        kwargs = {k: unwrap(v) for k, v in kwargs.items()}
        return func(*args, **kwargs)
    cls.__array_ufunc__ = array_ufunc
    cls.__array_function__ = array_function

    ops = ['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod', 'pow', 'rpow',
           'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'matmul', 'rmatmul', 'and', 'or']
    for n in ops:
        d = f'__{n}__'
        orig = getattr(cls, d, None) or getattr(tf.Variable, d, None)
        if orig is None:
            continue

        def mk(d, orig):
            def f(self, o, *a):
                if active() and (STORE.has(self) or is_symbolic(o)):
                    s = as_sym(var_value(self))
                    return getattr(s, d)(unwrap(o))
                return orig(self, o, *a)
            return f
        setattr(cls, d, mk(d, orig))
    if cls.__dict__.get('__eq__') is not None:
        cls.__hash__ = lambda self: id(self) if not tf.executing_eagerly() else id(self)
    for n in ('neg', 'abs', 'invert'):
        d = f'__{n}__'
        orig = getattr(tf.Variable, d)

        def mk1(d, orig):
            def f(self):
                if active() and STORE.has(self):
                    return getattr(as_sym(var_value(self)), d)()
                return orig(self)
            return f
        setattr(cls, d, mk1(d, orig))
    o_get = tf.Variable.__getitem__ if hasattr(tf.Variable, '__getitem__') else None

    def getitem(self, k):
        if active() and STORE.has(self):
            return as_sym(var_value(self))[k]
        return o_get(self, k)
    if o_get:
        cls.__getitem__ = getitem
    for d in ('__bool__', '__int__', '__float__', '__index__', '__array__'):
        orig = getattr(cls, d, None)

        def mk2(d, orig):
            def f(self, *a, **k):
                if active() and STORE.has(self):
                    v = STORE.get(self)
                    if d == '__array__':
                        if isinstance(v, SymArray):
                            raise TypeError('symbolic variable has no concrete value')
                        return np.asarray(v, *a, **k)
                    return getattr(v, d)()
                return orig(self, *a, **k)
            return f
        if orig is not None:
            setattr(cls, d, mk2(d, orig))


# -- functions and layers ----------------------------------------------------------------------------------------

def _patch_functions():
    o_call = pf.Function.__call__

    def call(self, *args, **kwargs):
        if active() and not tf.config.functions_run_eagerly():
            args = tf.nest.map_structure(lambda a: var_value(a) if sym_var(a) else a, list(args))
            kwargs = tf.nest.map_structure(lambda a: var_value(a) if sym_var(a) else a, kwargs)
            return trace_call(functools.partial(o_call, self), args, kwargs, key=('fn', id(self)))
        return o_call(self, *args, **kwargs)
    pf.Function.__call__ = call


def _patch_layers():
    from keras.src.engine.base_layer import Layer
    o_call = Layer.__call__

    def call(self, *args, **kwargs):
        if active() and not any(_is_keras_tensor(l) for l in tf.nest.flatten((list(args), kwargs))):
            if any_symbolic(args, kwargs) or any(STORE.has(w) for w in _layer_vars(self)):
                return trace_call(functools.partial(o_call, self), args, kwargs)
        return o_call(self, *args, **kwargs)
    Layer.__call__ = call


def _patch_quantizers():
    """QKeras quantizers are callables HGQ applies to weights: trace them as a whole"""
    m = sys.modules.get('qkeras.quantizers')
    for cls in vars(m).values() if m else ():
        f = isinstance(cls, type) and cls.__dict__.get('__call__')
        if f and not hasattr(f, 'traced'):
            def mk(f):
                @functools.wraps(f)
                def call(self, x, *a, **k):
                    if active() and any_symbolic((x,), k):
                        return trace_call(functools.partial(f, self), (var_value(x) if sym_var(x) else x, *a), k)
                    return f(self, x, *a, **k)
                call.traced = True
                return call
            cls.__call__ = mk(f)


def _layer_vars(layer):
    return [v for v in layer.variables if isinstance(v, rvo.BaseResourceVariable)]


def _is_keras_tensor(x):
    from keras.src.engine.keras_tensor import KerasTensor
    return isinstance(x, KerasTensor)


def _patch_numpy():
    for nm in ('array', 'asarray', 'ascontiguousarray'):
        orig = getattr(np, nm)

        def mk(orig):
            @functools.wraps(orig)
            def f(x=None, dtype=None, *a, **k):
                if core.CTX is not None and dtype is not object:
                    if isinstance(x, rvo.BaseResourceVariable) and STORE.has(x):
                        x = STORE.get(x)
                    if isinstance(x, (SymArray, core._Num, SB)) or (isinstance(x, (list, tuple)) and _deep_sym(x)):
                        x = as_sym(x)
                        x = x.copy()
                        return cast(x, dtype) if dtype is not None else x
                return orig(x, dtype, *a, **k) if dtype is not None else orig(x, *a, **k)
            return f
        setattr(np, nm, mk(orig))
    for nm in ('max', 'min', 'amax', 'amin', 'sum', 'prod', 'any', 'all', 'mean'):     # reductions over lists of symbolic scalars
        orig = getattr(np, nm)

        def mk(orig):
            @functools.wraps(orig)
            def f(x, *a, **k):
                if core.CTX is not None and isinstance(x, (list, tuple)) and _deep_sym(x):
                    x = as_sym(x)
                return orig(x, *a, **k)
            return f
        setattr(np, nm, mk(orig))


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(v) for v in x)
    return isinstance(x, (SymArray, core._Num, SB))


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        _patch_variables()
        _patch_functions()
        _patch_layers()
        _patch_numpy()
    _patch_quantizers()
    install_proxies()
