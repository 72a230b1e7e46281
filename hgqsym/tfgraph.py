"""Symbolic interpreter of TensorFlow FuncGraphs: the operations the real code traces, executed over core scalars."""
from fractions import Fraction

import numpy as np
import tensorflow as tf
from tensorflow.python.eager import context as tfctx
from tensorflow.python.eager import execute as tfexec
from tensorflow.python.framework import tensor_util

from . import core
from .core import D, R, STATS, Unsupported
from .symarray import (SymArray, as_sym, cast, cast_obj, conc_scalar, dot, gather, is_int, matmul, norm, obj, prec_of,
                       reduce, vec, wrap_int, BIN, UN)

INTERNAL = object()


class Store:
    """Symbolic values of tf.Variables, keyed by the identity of the resource handle."""

    def __init__(self):
        self.vals = {}

    @staticmethod
    def key(handle):
        return handle._id if hasattr(handle, '_id') else id(handle)

    def set(self, var, value):
        self.vals[Store.key(var.handle)] = value

    def has(self, var):
        return Store.key(var.handle) in self.vals

    def get(self, var):
        return self.vals.get(Store.key(var.handle))


STORE = Store()
RANDOM_LOG = []     # symbolic random draws of the current path
HANDLERS = {}


def op_handler(*names):
    def reg(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return reg


class Handle:
    """A resource handle flowing through a graph."""
    __slots__ = ('key', 'eager')

    def __init__(self, eager):
        self.eager = eager
        self.key = Store.key(eager)


def is_sym(x):
    return isinstance(x, SymArray)


def run_graph(graph, args, captures):
    """Interpret a FuncGraph.  args: values for graph.inputs (captures included).  Returns values of graph.outputs."""
    env = {}
    for t, v in zip(graph.inputs, list(args) + list(captures)):
        env[id(t.op), t.value_index] = v
    for o in graph.get_operations():
        if o.type == 'Placeholder' and (id(o), 0) in env:
            continue
        ins = [env[id(t.op), t.value_index] for t in o.inputs]
        try:
            outs = run_op(graph, o, ins)
        except (Unsupported, core.Inexact) as e:
            if not getattr(e, 'noted', False):
                e.noted = True
                e.args = (f'{e.args[0] if e.args else ""} [at op {o.type} {o.name}]',)
            raise
        for i, v in enumerate(outs):
            env[id(o), i] = v
    return [env[id(t.op), t.value_index] for t in graph.outputs]


def np_dtype(t):
    return np.dtype(t.dtype.as_numpy_dtype)


def const_exec(o, ins):
    """Run the real kernel of an op whose inputs are all concrete."""
    attrs = []
    for name in o.node_def.attr:
        if name.startswith('_'):
            continue
        v = o.get_attr(name)
        if isinstance(v, tf.DType):
            v = v.as_datatype_enum
        elif isinstance(v, list) and v and isinstance(v[0], tf.DType):
            v = [x.as_datatype_enum for x in v]
        attrs += [name, v]
    tin = [x.eager if isinstance(x, Handle) else tf.constant(x, dtype=t.dtype) for x, t in zip(ins, o.inputs)]
    with tf.init_scope(), tf.device('/CPU:0'):
        outs = tfexec.execute(o.type.encode(), len(o.outputs), inputs=tin, attrs=tuple(attrs), ctx=tfctx.context())
    outs = outs if isinstance(outs, (list, tuple)) else [outs]
    return [t.numpy() for t in outs]


def inner_graph(graph, name):
    g = graph
    while g is not None:
        try:
            f = g._get_function(name)
        except Exception:
            f = None
        if f is not None:
            return f.graph
        g = getattr(g, 'outer_graph', None)
    raise Unsupported(f'function {name} not found')


STATEFUL = {'ReadVariableOp', 'AssignVariableOp', 'AssignAddVariableOp', 'AssignSubVariableOp', 'RandomUniform', 'VarHandleOp',
            'PartitionedCall', 'StatefulPartitionedCall', 'StatelessRandomUniformV2', 'RandomStandardNormal', 'ResourceGather', 'NoOp', 'Assert',
            'If', 'StatelessIf', 'While', 'StatelessWhile', 'Case', 'VariableShape', 'Const', 'Print', 'PrintV2', 'StatelessRandomUniform',
            'Identity', 'IdentityN', 'StopGradient', 'EnsureShape', 'PreventGradient', 'CheckNumerics', 'Snapshot',
            'StatelessRandomGetKeyCounter', 'StatelessRandomGetAlg', 'StatefulUniform', 'RngReadAndSkip', 'VarIsInitializedOp'}


def run_op(graph, o, ins):
    STATS.ops[o.type] = STATS.ops.get(o.type, 0) + 1
    h = HANDLERS.get(o.type)
    if o.type in STATEFUL:
        if h is None:
            raise Unsupported(f'op {o.type}')
        return h(graph, o, ins)
    if not any(is_sym(x) for x in ins):
        return const_exec(o, ins)
    if h is None:
        raise Unsupported(f'op {o.type} on symbolic input')
    r = h(graph, o, ins)
    return r


# -- plumbing ----------------------------------------------------------------------------------------------------

@op_handler('Const')
def _(g, o, ins):
    return [tensor_util.MakeNdarray(o.get_attr('value'))]


@op_handler('NoOp', 'Assert', 'Print', 'PrintV2')
def _(g, o, ins):
    if o.type == 'Assert':
        c = ins[0]
        if is_sym(c):
            c = bool(c)
        if not bool(c):
            raise AssertionError('tf.Assert')
    return []


@op_handler('Identity', 'StopGradient', 'EnsureShape', 'PreventGradient', 'CheckNumerics', 'Snapshot')
def _(g, o, ins):
    return [ins[0]]


@op_handler('IdentityN')
def _(g, o, ins):
    return list(ins)


@op_handler('PartitionedCall', 'StatefulPartitionedCall')
def _(g, o, ins):
    fg = inner_graph(g, o.get_attr('f').name)
    return run_graph(fg, ins, [])


def _branch(g, attr):
    return inner_graph(g, attr.name)


@op_handler('If', 'StatelessIf')
def _(g, o, ins):
    c = ins[0]
    c = bool(c) if is_sym(c) else bool(np.asarray(c))
    return run_graph(_branch(g, o.get_attr('then_branch' if c else 'else_branch')), ins[1:], [])


@op_handler('Case')
def _(g, o, ins):
    k = int(ins[0])
    bs = o.get_attr('branches')
    return run_graph(_branch(g, bs[k if 0 <= k < len(bs) else -1]), ins[1:], [])


@op_handler('While', 'StatelessWhile')
def _(g, o, ins):
    cg, bg = _branch(g, o.get_attr('cond')), _branch(g, o.get_attr('body'))
    st = list(ins)
    for _i in range(10000):
        c = run_graph(cg, st, [])[0]
        if not (bool(c) if is_sym(c) else bool(np.asarray(c))):
            return st
        st = run_graph(bg, st, [])
    raise Unsupported('while loop bound')


@op_handler('VariableShape')
def _(g, o, ins):
    v = STORE.vals.get(ins[0].key)
    if v is None:
        return const_exec(o, ins)
    return [np.array(v.shape, dtype=np_dtype(o.outputs[0]))]


@op_handler('VarIsInitializedOp')
def _(g, o, ins):
    return [np.bool_(True)]


@op_handler('ReadVariableOp')
def _(g, o, ins):
    h = ins[0]
    if h.key in STORE.vals:
        return [STORE.vals[h.key]]
    return const_exec(o, ins)


@op_handler('AssignVariableOp')
def _(g, o, ins):
    STORE.vals[ins[0].key] = ins[1]
    return []


def _rmw(f):
    def h(g, o, ins):
        hd = ins[0]
        old = STORE.vals[hd.key] if hd.key in STORE.vals else tf.raw_ops.ReadVariableOp(resource=hd.eager, dtype=o.get_attr('dtype')).numpy()
        STORE.vals[hd.key] = f(as_sym(old), as_sym(ins[1]))
        return []
    return h


HANDLERS['AssignAddVariableOp'] = _rmw(lambda a, b: a + b)
HANDLERS['AssignSubVariableOp'] = _rmw(lambda a, b: a - b)


@op_handler('RandomUniform', 'StatelessRandomUniform', 'StatelessRandomUniformV2')
def _(g, o, ins):
    shape = tuple(int(x) for x in np.asarray(ins[0]).reshape(-1))
    c = core.ctx()
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    for i in range(of.size):
        # every draw of a uniform variable in [0,1), on a grid of 2^-10
        of[i] = c.dyadic(c.fresh_name('rand'), -10, 0, 1023)
    RANDOM_LOG.append(out)
    return [SymArray(out, np_dtype(o.outputs[0]))]


@op_handler('StatelessRandomGetKeyCounter')
def _(g, o, ins):
    return [np.zeros(1, np.uint64), np.zeros(2, np.uint64)]


@op_handler('StatelessRandomGetAlg')
def _(g, o, ins):
    return [np.int32(1)]


# -- elementwise -------------------------------------------------------------------------------------------------

def _ew2(name):
    f = BIN[name]

    def h(g, o, ins):
        dt = np_dtype(o.outputs[0])
        p = prec_of(dt)
        r = vec(lambda a, b: f(a, b, p), obj(ins[0]), obj(ins[1]))
        if is_int(dt):
            r = vec(lambda x: wrap_int(core.lift(x), dt), r)
        return [norm(r, dt)]
    return h


for tfn, npn in {'AddV2': 'add', 'Add': 'add', 'Sub': 'subtract', 'Mul': 'multiply', 'RealDiv': 'divide', 'Div': 'divide', 'FloorMod': 'remainder',
                 'Maximum': 'maximum', 'Minimum': 'minimum', 'Pow': 'power', 'FloorDiv': 'floor_divide', 'Mod': 'fmod', 'TruncateMod': 'fmod',
                 'Less': 'less', 'LessEqual': 'less_equal', 'Greater': 'greater', 'GreaterEqual': 'greater_equal', 'Equal': 'equal', 'NotEqual': 'not_equal',
                 'LogicalAnd': 'logical_and', 'LogicalOr': 'logical_or', 'BitwiseAnd': 'bitwise_and', 'BitwiseOr': 'bitwise_or', 'BitwiseXor': 'bitwise_xor',
                 'LeftShift': 'left_shift', 'RightShift': 'right_shift'}.items():
    HANDLERS[tfn] = _ew2(npn)


def _ew1(f):
    def h(g, o, ins):
        dt = np_dtype(o.outputs[0])
        p = prec_of(dt)
        return [norm(vec(lambda a: f(a, p), obj(ins[0])), dt)]
    return h


for tfn, npn in {'Neg': 'negative', 'Abs': 'absolute', 'Floor': 'floor', 'Ceil': 'ceil', 'Round': 'rint', 'Rint': 'rint', 'Sign': 'sign',
                 'Square': 'square', 'Log': 'log', 'Exp': 'exp', 'Tanh': 'tanh', 'LogicalNot': 'logical_not', 'IsNan': 'isnan', 'IsInf': 'isinf',
                 'IsFinite': 'isfinite', 'Reciprocal': 'reciprocal', 'Inv': 'reciprocal'}.items():
    HANDLERS[tfn] = _ew1(UN[npn])


def uf1(name):
    return _ew1(lambda a, p: R(core.uf(name, core.to_real(core.lift(a)))))


for tfn, n in {'Sigmoid': 'sigmoid', 'Softplus': 'softplus', 'Elu': 'elu', 'Selu': 'selu', 'Softsign': 'softsign', 'Erf': 'erf', 'Sin': 'sin', 'Cos': 'cos',
               'Log1p': 'log1p', 'Expm1': 'expm1', 'Atan': 'atan', 'Sinh': 'sinh', 'Cosh': 'cosh'}.items():
    HANDLERS[tfn] = uf1(n)


def _sqrt(a, p):
    a = core.lift(a)
    if isinstance(a, D) and a.conc:
        # exact square of a dyadic
        from math import isqrt
        v = a.value
        n, d = v.numerator, v.denominator
        if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return core.from_fraction(Fraction(isqrt(n), isqrt(d)))
    t = core.to_real(a)
    return R(core.uf('sqrt', t))


HANDLERS['Sqrt'] = _ew1(_sqrt)
def _rsqrt(a, p):
    r = _sqrt(a, p)
    return R(core.uf('rsqrt', r.t.arg(0))) if isinstance(r, R) and r.t.decl().name() == 'sqrt' else core.div(1, r, p)


HANDLERS['Rsqrt'] = _ew1(_rsqrt)
HANDLERS['Relu'] = _ew1(lambda a, p: core.maximum(a, D(0, 0)))
HANDLERS['Relu6'] = _ew1(lambda a, p: core.minimum(core.maximum(a, D(0, 0)), D(6, 0)))


@op_handler('LeakyRelu')
def _(g, o, ins):
    al = core.lift(float(np.float32(o.get_attr('alpha'))))
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)
    return [norm(vec(lambda a: core.ite(core.lt(a, 0), core.mul(a, al, p), a), obj(ins[0])), dt)]


@op_handler('ReluGrad')
def _(g, o, ins):
    return [norm(vec(lambda d, x: core.ite(core.lt(0, x), d, D(0, 0)), obj(ins[0]), obj(ins[1])), np_dtype(o.outputs[0]))]


@op_handler('RsqrtGrad')
def _(g, o, ins):
    return [norm(vec(lambda y, dy: core.mul(core.mul(dy, core.mul(y, core.mul(y, y, None), None), None), from_half_neg, None), obj(ins[0]), obj(ins[1])), np_dtype(o.outputs[0]))]


from_half_neg = core.from_fraction(Fraction(-1, 2))


@op_handler('SquaredDifference')
def _(g, o, ins):
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)

    def f(a, b):
        d = core.sub(a, b, p)
        return core.mul(d, d, p)
    return [norm(vec(f, obj(ins[0]), obj(ins[1])), dt)]


@op_handler('DivNoNan')
def _(g, o, ins):
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)

    def f(a, b):
        if isinstance(core.eq(b, 0), bool):
            return D(0, 0) if core.eq(b, 0) else core.div(a, b, p)
        if core.ctx().fork_bool(core.eq(b, 0)):
            return D(0, 0)
        return core.div(a, b, p)
    return [norm(vec(f, obj(ins[0]), obj(ins[1])), dt)]


@op_handler('MulNoNan')
def _(g, o, ins):
    dt = np_dtype(o.outputs[0])
    return [norm(vec(lambda a, b: D(0, 0) if core._zero(core.lift(b)) else core.mul(a, b, prec_of(dt)), obj(ins[0]), obj(ins[1])), dt)]


@op_handler('ClipByValue')
def _(g, o, ins):
    return [norm(vec(lambda x, lo, hi: core.minimum(core.maximum(x, lo), hi), *[obj(i) for i in ins]), np_dtype(o.outputs[0]))]


@op_handler('AddN', 'AccumulateNV2')
def _(g, o, ins):
    dt = np_dtype(o.outputs[0])
    acc = obj(ins[0])
    for x in ins[1:]:
        acc = vec(lambda a, b: core.add(a, b, prec_of(dt)), acc, obj(x))
    return [norm(acc, dt)]


@op_handler('Select', 'SelectV2')
def _(g, o, ins):
    c, a, b = [obj(x) for x in ins]
    if o.type == 'Select' and c.ndim == 1 and a.ndim > 1:
        c = c.reshape(c.shape + (1,) * (a.ndim - 1))
    return [norm(vec(core.ite, c, a, b), np_dtype(o.outputs[0]))]


@op_handler('Cast')
def _(g, o, ins):
    return [cast(ins[0], np_dtype(o.outputs[0]))]


@op_handler('ZerosLike')
def _(g, o, ins):
    return [np.zeros(ins[0].shape, dtype=np_dtype(o.outputs[0]))]


@op_handler('OnesLike')
def _(g, o, ins):
    return [np.ones(ins[0].shape, dtype=np_dtype(o.outputs[0]))]


@op_handler('Shape')
def _(g, o, ins):
    return [np.array(ins[0].shape, dtype=np_dtype(o.outputs[0]))]


@op_handler('ShapeN')
def _(g, o, ins):
    return [np.array(x.shape, dtype=np_dtype(t)) for x, t in zip(ins, o.outputs)]


@op_handler('Size')
def _(g, o, ins):
    return [np.array(ins[0].size, dtype=np_dtype(o.outputs[0]))]


@op_handler('Rank')
def _(g, o, ins):
    return [np.int32(ins[0].ndim)]


@op_handler('Fill')
def _(g, o, ins):
    return [norm(np.broadcast_to(obj(ins[1]), tuple(int(i) for i in ins[0])).copy(), np_dtype(o.outputs[0]))]


# -- data movement: the real kernel applied to positions ---------------------------------------------------------

MOVE_DATA = {   # op -> indices of data inputs (others must be concrete)
    'Reshape': [0], 'Transpose': [0], 'ExpandDims': [0], 'Squeeze': [0], 'Slice': [0], 'StridedSlice': [0], 'Tile': [0], 'BroadcastTo': [0],
    'Reverse': [0], 'ReverseV2': [0], 'Pad': [0], 'MirrorPad': [0], 'SpaceToBatchND': [0], 'BatchToSpaceND': [0], 'GatherNd': [0],
    'MatrixTranspose': [0], 'DepthToSpace': [0], 'SpaceToDepth': [0], 'MatrixDiagPart': [0], 'Roll': [0], 'Gather': [0], 'SplitV': [0], 'Unpack': [0],
    'Split': [1], 'ExtractImagePatches': [0],
    'ConcatV2': 'allbutlast', 'Concat': 'allbutfirst', 'Pack': 'all', 'ParallelConcat': 'all',
}


def _move(g, o, ins):
    spec = MOVE_DATA[o.type]
    n = len(ins)
    data = {'allbutlast': range(n - 1), 'allbutfirst': range(1, n), 'all': range(n)}.get(spec if isinstance(spec, str) else None, spec)
    pool = [D(0, 0) if np_dtype(o.outputs[0]).kind != 'b' else False]
    newins = list(ins)
    for i in data:
        a = obj(ins[i])
        newins[i] = np.arange(len(pool), len(pool) + a.size, dtype=np.int64).reshape(a.shape)
        pool.extend(a.reshape(-1))
    for i in range(n):
        if i not in data and is_sym(ins[i]):
            raise Unsupported(f'symbolic shape argument to {o.type}')
    outs = index_exec(o, newins, set(data))
    res = []
    for x, t in zip(outs, o.outputs):
        r = np.empty(x.shape, dtype=object)
        rf = r.reshape(-1)
        for i, k in enumerate(x.reshape(-1)):
            rf[i] = pool[int(k)]
        res.append(norm(r, np_dtype(t)))
    return res


def index_exec(o, ins, data):
    attrs = []
    tattr = None
    for a in o.op_def.input_arg:
        pass
    # type attribute shared by the data inputs
    opdef = o.op_def
    pos = 0
    tattrs = set()
    for a in opdef.input_arg:
        cnt = o.get_attr(a.number_attr) if a.number_attr else 1
        if any(p in data for p in range(pos, pos + cnt)) and a.type_attr:
            tattrs.add(a.type_attr)
        pos += cnt
    for name in o.node_def.attr:
        if name.startswith('_'):
            continue
        v = o.get_attr(name)
        if name in tattrs:
            v = tf.int64.as_datatype_enum
        elif isinstance(v, tf.DType):
            v = v.as_datatype_enum
        attrs += [name, v]
    tin = [tf.constant(x, dtype=tf.int64) if i in data else tf.constant(x, dtype=t.dtype) for i, (x, t) in enumerate(zip(ins, o.inputs))]
    with tf.init_scope(), tf.device('/CPU:0'):
        outs = tfexec.execute(o.type.encode(), len(o.outputs), inputs=tin, attrs=tuple(attrs), ctx=tfctx.context())
    return [t.numpy() for t in (outs if isinstance(outs, (list, tuple)) else [outs])]


for _n in MOVE_DATA:
    HANDLERS[_n] = _move


@op_handler('PadV2')
def _(g, o, ins):
    a = obj(ins[0])
    return [norm(np.pad(a, [tuple(int(v) for v in r) for r in ins[1]], constant_values=[obj(ins[2])[()]] if False else obj(ins[2]).item()), np_dtype(o.outputs[0]))]


@op_handler('GatherV2')
def _(g, o, ins):
    axis = int(ins[2])
    x, idx = ins[0], ins[1]
    if o.get_attr('batch_dims'):
        raise Unsupported('batch gather')
    if is_sym(idx):
        return [gather(x, idx, axis % as_sym(x).ndim)]
    return [SymArray(np.take(obj(x), np.asarray(idx), axis=axis), np_dtype(o.outputs[0]))]


@op_handler('ResourceGather')
def _(g, o, ins):
    h, idx = ins
    t = STORE.vals[h.key] if h.key in STORE.vals else tf.raw_ops.ReadVariableOp(resource=h.eager, dtype=o.get_attr('dtype')).numpy()
    if not is_sym(idx) and not is_sym(t):
        return [np.take(t, idx, axis=0)]
    if is_sym(idx):
        return [gather(t, idx, 0)]
    return [norm(np.take(obj(t), np.asarray(idx), axis=0), np_dtype(o.outputs[0]))]


# -- reductions --------------------------------------------------------------------------------------------------

def _reduction(f):
    def h(g, o, ins):
        if is_sym(ins[1]):
            raise Unsupported('symbolic axis')
        x = as_sym(ins[0])
        ax = tuple(int(i) for i in np.asarray(ins[1]).reshape(-1))
        kd = bool(o.get_attr('keep_dims'))
        if not ax:
            return [ins[0]]
        p = prec_of(x.dtype)
        return [reduce(x, lambda a, b: f(a, b, p), ax, kd)]
    return h


HANDLERS['Max'] = _reduction(lambda a, b, p: core.maximum(a, b))
HANDLERS['Min'] = _reduction(lambda a, b, p: core.minimum(a, b))
HANDLERS['Sum'] = _reduction(lambda a, b, p: core.add(a, b, p))
HANDLERS['Prod'] = _reduction(lambda a, b, p: core.mul(a, b, p))
HANDLERS['All'] = _reduction(lambda a, b, p: core.b_and(a, b))
HANDLERS['Any'] = _reduction(lambda a, b, p: core.b_or(a, b))


@op_handler('Mean')
def _(g, o, ins):
    x = as_sym(ins[0])
    ax = tuple(int(i) % x.ndim for i in np.asarray(ins[1]).reshape(-1))
    n = int(np.prod([x.shape[i] for i in ax])) if ax else 1
    p = prec_of(x.dtype)
    s = as_sym(reduce(x, lambda a, b: core.add(a, b, p), ax, bool(o.get_attr('keep_dims'))))
    return [norm(vec(lambda a: core.div(a, D(n, 0), p), s.a), x.dtype)]


# -- linear algebra ----------------------------------------------------------------------------------------------

@op_handler('MatMul')
def _(g, o, ins):
    a, b = as_sym(ins[0]), as_sym(ins[1])
    if o.get_attr('transpose_a'):
        a = a.T
    if o.get_attr('transpose_b'):
        b = b.T
    return [matmul(a, b)]


@op_handler('BatchMatMulV2', 'BatchMatMul', 'BatchMatMulV3')
def _(g, o, ins):
    a, b = as_sym(ins[0]), as_sym(ins[1])
    if o.get_attr('adj_x'):
        a = a.swapaxes(-1, -2)
    if o.get_attr('adj_y'):
        b = b.swapaxes(-1, -2)
    return [matmul(a, b)]


def _einsum(eqn, arrs, p):
    """einsum over object arrays of scalars (ellipsis and any number of operands)"""
    lhs, rhs = eqn.replace(' ', '').split('->')
    terms = lhs.split(',')
    free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in eqn]
    ell = max([a.ndim - len(t.replace('...', '')) for t, a in zip(terms, arrs) if '...' in t] or [0])
    letters = ''.join(free[:ell])
    terms = [t.replace('...', letters[ell - (a.ndim - len(t.replace('...', ''))):]) for t, a in zip(terms, arrs)]
    rhs = rhs.replace('...', letters)
    dims = {}
    for l, x in zip(terms, arrs):
        for c, n in zip(l, x.shape):
            dims[c] = max(n, dims.get(c, 1))
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    for idx in np.ndindex(*out.shape):
        m = dict(zip(rhs, idx))
        acc = D(0, 0)
        for s in np.ndindex(*[dims[c] for c in summed]):
            m.update(zip(summed, s))
            v = None
            for l, x in zip(terms, arrs):
                e = x[tuple(m[c] if n > 1 else 0 for c, n in zip(l, x.shape))]
                v = e if v is None else core.mul(v, e, p)
            acc = core.add(acc, v, p)
        out[idx] = acc
    return out


@op_handler('Einsum')
def _(g, o, ins):
    dt = np_dtype(o.outputs[0])
    return [norm(_einsum(o.get_attr('equation').decode(), [obj(x) for x in ins], prec_of(dt)), dt)]


@op_handler('Cumsum')
def _(g, o, ins):
    a = obj(ins[0]).copy()
    if o.get_attr('exclusive') or o.get_attr('reverse'):
        raise Unsupported('exclusive or reverse cumsum')
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)
    a = np.moveaxis(a, int(ins[1]), 0)
    for i in range(1, len(a)):
        a[i] = vec(lambda x, y: core.add(x, y, p), a[i - 1], a[i])
    return [norm(np.moveaxis(a, 0, int(ins[1])), dt)]


@op_handler('BiasAdd')
def _(g, o, ins):
    x, b = obj(ins[0]), obj(ins[1])
    df = o.get_attr('data_format').decode()
    if df == 'NCHW':
        b = b.reshape((1, -1) + (1,) * (x.ndim - 2))
    dt = np_dtype(o.outputs[0])
    return [norm(vec(lambda u, v: core.add(u, v, prec_of(dt)), x, b), dt)]


@op_handler('BiasAddGrad')
def _(g, o, ins):
    x = as_sym(ins[0])
    ax = tuple(range(x.ndim - 1)) if o.get_attr('data_format').decode() != 'NCHW' else (0,) + tuple(range(2, x.ndim))
    return [reduce(x, lambda a, b: core.add(a, b, prec_of(x.dtype)), ax, False)]


def windows(in_sz, k, s, d, padding, explicit=None):
    """For one spatial dimension: list over outputs of list of (kernel index, input index or None)."""
    ke = (k - 1) * d + 1
    if padding == 'VALID':
        n, pl = (in_sz - ke) // s + 1, 0
    elif padding == 'SAME':
        n = -(-in_sz // s)
        tot = max((n - 1) * s + ke - in_sz, 0)
        pl = tot // 2
    else:
        pl, pr = explicit
        n = (in_sz + pl + pr - ke) // s + 1
    out = []
    for i in range(n):
        row = []
        for j in range(k):
            p = i * s - pl + j * d
            row.append((j, p if 0 <= p < in_sz else None))
        out.append(row)
    return out


@op_handler('Conv2D')
def _(g, o, ins):
    x, w = obj(ins[0]), obj(ins[1])
    df = o.get_attr('data_format').decode()
    strides, dil = o.get_attr('strides'), o.get_attr('dilations')
    pad = o.get_attr('padding').decode()
    ep = o.get_attr('explicit_paddings') if pad == 'EXPLICIT' else [0] * 8
    if df == 'NCHW':
        x = x.transpose(0, 2, 3, 1)
        strides = [strides[0], strides[2], strides[3], strides[1]]
        dil = [dil[0], dil[2], dil[3], dil[1]]
        ep = ep[0:2] + ep[4:8] + ep[2:4]
    n, H, W, C = x.shape
    kh, kw, ci, co = w.shape
    groups = C // ci
    per = co // groups
    wh = windows(H, kh, strides[1], dil[1], pad, ep[2:4])
    ww = windows(W, kw, strides[2], dil[2], pad, ep[4:6])
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)
    out = np.empty((n, len(wh), len(ww), co), dtype=object)
    for b in range(n):
        for i, rh in enumerate(wh):
            for j, rw in enumerate(ww):
                for f in range(co):
                    gi = f // per
                    acc = D(0, 0)
                    for a, ih in rh:
                        if ih is None:
                            continue
                        for c, iw in rw:
                            if iw is None:
                                continue
                            for q in range(ci):
                                acc = core.add(acc, core.mul(x[b, ih, iw, gi * ci + q], w[a, c, q, f], p), p)
                    out[b, i, j, f] = acc
    if df == 'NCHW':
        out = out.transpose(0, 3, 1, 2)
    return [norm(out, dt)]


@op_handler('DepthwiseConv2dNative')
def _(g, o, ins):
    x, w = obj(ins[0]), obj(ins[1])
    strides, dil = o.get_attr('strides'), o.get_attr('dilations')
    pad = o.get_attr('padding').decode()
    n, H, W, C = x.shape
    kh, kw, ci, m = w.shape
    wh = windows(H, kh, strides[1], dil[1], pad)
    ww = windows(W, kw, strides[2], dil[2], pad)
    dt = np_dtype(o.outputs[0])
    p = prec_of(dt)
    out = np.empty((n, len(wh), len(ww), C * m), dtype=object)
    for b, i, j, c, r in np.ndindex(n, len(wh), len(ww), C, m):
        acc = D(0, 0)
        for a, ih in wh[i]:
            for d, iw in ww[j]:
                if ih is not None and iw is not None:
                    acc = core.add(acc, core.mul(x[b, ih, iw, c], w[a, d, c, r], p), p)
        out[b, i, j, c * m + r] = acc
    return [norm(out, dt)]


def _pool(avg):
    def h(g, o, ins):
        x = obj(ins[0])
        df = o.get_attr('data_format').decode()
        ks, st = o.get_attr('ksize'), o.get_attr('strides')
        pad = o.get_attr('padding').decode()
        if df == 'NCHW':
            x = x.transpose(0, 2, 3, 1)
            ks, st = [ks[0], ks[2], ks[3], ks[1]], [st[0], st[2], st[3], st[1]]
        n, H, W, C = x.shape
        wh, ww = windows(H, ks[1], st[1], 1, pad), windows(W, ks[2], st[2], 1, pad)
        dt = np_dtype(o.outputs[0])
        p = prec_of(dt)
        out = np.empty((n, len(wh), len(ww), C), dtype=object)
        for b, i, j, c in np.ndindex(*out.shape):
            vals = [x[b, u, v, c] for _, u in wh[i] for _, v in ww[j] if u is not None and v is not None]
            acc = vals[0]
            for v in vals[1:]:
                acc = core.add(acc, v, p) if avg else core.maximum(acc, v)
            out[b, i, j, c] = core.div(acc, D(len(vals), 0), p) if avg else acc
        if df == 'NCHW':
            out = out.transpose(0, 3, 1, 2)
        return [norm(out, dt)]
    return h


HANDLERS['MaxPool'] = _pool(False)
HANDLERS['AvgPool'] = _pool(True)


@op_handler('Softmax')
def _(g, o, ins):
    x = obj(ins[0])
    out = np.empty(x.shape, dtype=object)
    n = x.shape[-1]
    for idx in np.ndindex(*x.shape[:-1]):
        args = [core.to_real(core.lift(v)) for v in x[idx]]
        for j in range(n):
            out[idx + (j,)] = R(core.uf('softmax', args[j], *args))
    return [SymArray(out, np_dtype(o.outputs[0]))]


@op_handler('L2Loss')
def _(g, o, ins):
    x = as_sym(ins[0])
    s = D(0, 0)
    for v in x.a.flat:
        s = core.add(s, core.mul(v, v, 24), 24)
    return [SymArray(core.mul(s, core.from_fraction(Fraction(1, 2))), x.dtype)]


# -- entry -------------------------------------------------------------------------------------------------------

def spec_of(x):
    if isinstance(x, SymArray):
        return tf.TensorSpec(x.shape, tf.as_dtype(x.dtype))
    x = np.asarray(x)
    return tf.TensorSpec(x.shape, tf.as_dtype(x.dtype))


def capture_values(fg):
    out = []
    for ext, _int in fg.captures:
        if ext.dtype == tf.resource:
            out.append(Handle(ext))
        elif hasattr(ext, 'numpy'):
            out.append(ext.numpy())
        else:
            raise Unsupported(f'capture {ext}')
    return out


def call_concrete(cf, flat_args):
    """cf: ConcreteFunction; flat_args: values in the order of its non-captured inputs."""
    fg = cf.graph
    outs = run_graph(fg, flat_args, capture_values(fg))
    return pack_outputs(fg, outs)


def pack_outputs(fg, outs):
    so = fg.structured_outputs
    flat = tf.nest.flatten(so, expand_composites=True)
    it = iter(outs)
    vals = [next(it) if isinstance(t, tf.Tensor) else t for t in flat]
    return tf.nest.pack_sequence_as(so, vals)


TRACE_CACHE = {}


def call_symbolic(fn, *args, key=None):
    """Trace fn over the flattened tensor arguments and interpret the graph.  Non-array args must be closed over."""
    cf = TRACE_CACHE.get(key) if key is not None else None
    if cf is None:
        cf = tf.function(fn, autograph=False).get_concrete_function(*[spec_of(a) for a in args])
        if key is not None:
            TRACE_CACHE[key] = cf
    return call_concrete(cf, list(args))
