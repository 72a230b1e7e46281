import itertools

import numpy as np

from hgqsym.symarray import SymArray

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def shared(rank, skip):
    """the shared dimensions a name stands for"""
    if skip is None or isinstance(skip, (tuple, list)):
        return tuple(d % rank for d in skip or ())
    return dict(all=tuple(range(rank)), batch=(0,), none=(), except_last=tuple(range(rank - 1)), except_1st=(0,) + tuple(range(2, rank)))[skip]


class symint:
    """int() that leaves symbolic integers as they are"""

    def __init__(self, mod):
        self.mod = mod

    def __enter__(self):
        self.mod.int = lambda x, *a: x if isinstance(x, (core._Num, SymArray)) else int(x, *a)

    def __exit__(self, *a):
        del self.mod.int


class Shape(Harness):
    """the function that maps shared dimensions to a shape, for every shape"""
    functions = ['HGQ._compute_bw_shape_and_degeneracy']
    bounds = 'every dimension any integer 1..1024 (first dimension also unknown), ranks 1 to 5'

    def setup(self):
        from HGQ.quantizer import quantizer
        self.mod = quantizer
        self.fn = getattr(quantizer.HGQ, '_compute_bw_shape_and_degeneracy', None)

    def inputs(self, v):
        return dict(dims=v.dyadic('dims', (self.rank,), 0, 1, 1024, dtype='int32'))

    def run(self, ins):
        if self.fn is None:                              # another way of organising the code: covered by the other harnesses
            return dict(shape=None)
        q = self.mod.HGQ(2., self.skip)
        dims = list(A(ins['dims'])) if core.CTX is not None else [int(x) for x in ins['dims']]
        if self.unknown:
            dims[0] = None
        with symint(self.mod):
            shape, deg = self.fn(q, tuple(dims))
        outs = dict(deg=deg, n=len(shape))
        for i, s in enumerate(shape):
            outs[f's{i}'] = s if s is not None else -1
        return outs

    def prop(self, ins, outs):
        if outs.get('shape', 0) is None:
            return [('not organised as one function', True)]
        if int(outs['n']) != self.rank:
            return [('one dimension per dimension', False)]
        dims = list(A(ins['dims']))
        if self.unknown:
            dims[0] = D(-1, 0)
        sh = shared(self.rank, self.skip)
        deg = ONE
        for d in sh:
            if not (self.unknown and d == 0):
                deg = mul(deg, dims[d], N)
        one = lambda x: core.lift(A(x).reshape(-1)[0])  # noqa: E731
        return [('shared dimensions have one bitwidth, the others one per index', b_and(*[core.unb(eq(one(outs[f's{i}']), ONE if i in sh else dims[i])) for i in range(self.rank)])),
                ('degeneracy is the number of values that share a bitwidth', core.unb(core.near(one(outs['deg']), deg)))]


class Built(Harness):
    """quantizers as built: which bitwidth each value is quantized with"""
    functions = ['HGQ.build', 'HGQ._compute_bw_shape_and_degeneracy', 'HGQ.__call__', 'HLayerBase.init_quantizers']
    bounds = 'tensors of up to 8 values on multiples of 1/4, |x| <= 1; bitwidths per group any of -1/2, 1/2 .. 3/2; all named modes and all sets of dimensions'

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_kq_conf, get_default_paq_conf
        from HGQ.quantizer import HGQ
        K = tf.keras.layers
        kq = dict(get_default_kq_conf(), skip_dims=self.skip, rnd_strategy='standard_round')
        paq = dict(get_default_paq_conf(), skip_dims=self.skip, rnd_strategy='standard_round')
        self.l = None
        if self.where == 'plain':
            self.q = HGQ(2., self.skip, rnd_strategy='standard_round')
            self.q.build(self.shape)
        elif self.where == 'activation':
            self.l = H.HQuantize(paq_conf=paq)
            self.l(K.Input(self.shape[1:]))
            self.q = self.l.paq
        else:
            n = self.shape[-1]
            C, a, s = dict(dense=lambda: (H.HDense, (n,), (self.shape[0],)), conv1=lambda: (H.HConv1D, (n, self.shape[0]), (3, self.shape[1])), conv2=lambda: (H.HConv2D, (n, self.shape[:2]), (3, 3, self.shape[2])),
                           preact=lambda: (H.HDense, (n,), self.shape[1:]))[self.where]()
            self.l = C(*a, **(dict(paq_conf=paq) if self.where == 'preact' else dict(kq_conf=kq)))
            self.l(K.Input(s))
            self.q = self.l.paq if self.where == 'preact' else self.l.kq
        self.fshape = tuple(self.q.fbw.shape)

    def inputs(self, v):
        return dict(x=v.dyadic('x', self.shape, -2, -4, 4), fbw=v.dyadic('fbw', self.fshape, -1, -1, 3))

    def assume(self, ins):                               # not the half-way points, where the rounding of the bitwidth matters and not the sharing
        return [b_not(core.unb(is_int(f))) for f in A(ins['fbw']).reshape(-1)]

    def run(self, ins):
        import tensorflow as tf
        put(self.q.fbw, ins['fbw'])
        if self.where in ('plain', 'activation', 'preact'):
            y = self.q(ins['x'], training=False)
        else:
            put(self.l.kernel, ins['x'])
            y = tf_call(lambda: self.l.fused_qkernel)
        return dict(y=y)

    def prop(self, ins, outs):
        sh = shared(len(self.shape), self.skip)
        want = tuple(1 if d in sh else n for d, n in enumerate(self.shape))
        deg = int(np.prod([n for d, n in enumerate(self.shape) if d in sh and not (d == 0 and self.where in ('activation', 'preact'))]))
        r = [('one bitwidth per combination of the unshared dimensions', self.fshape == want), ('degeneracy is the number of values that share a bitwidth', float(self.q.degeneracy) == deg)]
        if self.fshape == want:
            f = np.broadcast_to(vec(round_even, A(ins['fbw'])), self.shape)
            r.append(('each value is quantized with the bitwidth of its group', eq_arr(outs['y'], vec(lambda a, b: quant(a, b, 'round'), A(ins['x']), f))))
        return r


class Adapt(Harness):
    functions = ['HGQ.adapt_bw_bits', 'HLayerBase.init_quantizers (adaptation of the initial kernel)']
    bounds = 'tensors of up to 4 values on multiples of 2^-6, |w| <= 4; initial bitwidths 1, 2 or 6'
    assumptions = ['over the reals: the logarithm of the float code agrees within 2^-12']
    float_mode = 'real'
    tol = Fraction(1, 4096)
    fused = unbuilt = False

    def setup(self):
        import HGQ as H
        from HGQ.quantizer import HGQ
        self.q = HGQ(self.init, self.skip)
        self.q.build(self.shape)
        # the same through a layer, on the kernel it is initialised with
        self.layer = {}
        kinds = dict(dense=(H.HDense, (3,), (None, 2)), conv1=(H.HConv1D, (3, 2), (None, 4, 2)), conv2=(H.HConv2D, (2, (2, 1)), (None, 3, 3, 2)))
        for kind, (C, a, s) in kinds.items():
            for adapt in (None, True, False):
                kw = {} if adapt is None else dict(do_adapt_kernel_bits=adapt)
                l = C(*a, kq_conf=dict(H.get_default_kq_conf(), init_bw=self.init, skip_dims=self.skip_of(len(s))), kernel_initializer='glorot_normal', **kw)
                l.build(s)
                self.layer[f'{kind},{adapt}'] = self.adapted(l, l.kernel.numpy(), adapt in (None, True))
        # fused batch normalization, where the quantized kernel is that of the layer (no scale): by the first training call, and never again
        rng = np.random.RandomState(7)
        for kind, C, a, s in (('dense bn', H.HDenseBatchNorm, (3,), (2,)), ('conv1 bn', H.HConv1DBatchNorm, (3, 2), (4, 2)), ('conv2 bn', H.HConv2DBatchNorm, (2, (2, 1)), (3, 3, 2))) if self.fused else ():
            for adapt in (True, False):
                l = C(*a, scale=False, kq_conf=dict(H.get_default_kq_conf(), init_bw=self.init, skip_dims=self.skip_of(len(s) + 1)), do_adapt_kernel_bits=adapt, kernel_initializer='glorot_normal', paq_conf=dict(H.get_default_paq_conf(), init_bw=8))
                x = rng.normal(0, 4, (8,) + s).astype('float32')
                l.build((None,) + s)
                l(x, training=True)
                self.layer[f'{kind},{adapt},first training call'] = self.adapted(l, l.kernel.numpy(), adapt)
                l.kq.fbw.assign(np.full(l.kq.fbw.shape, 4., 'float32'))
                l(x, training=False)
                l(x, training=True)
                self.layer[f'{kind},{adapt},later'] = bool(np.all(l.kq.fbw.numpy() == 4))

    def skip_of(self, rank):
        return tuple(range(rank - 1)) if isinstance(self.skip, tuple) and len(self.skip) and max(self.skip) == 0 and rank > 2 else self.skip

    def adapted(self, l, k, yes, tol=1e-4):
        w = np.abs(k)
        sh = shared(w.ndim, self.skip_of(w.ndim))
        m = np.max(w, axis=sh, keepdims=True) if sh else w
        want = self.init - np.log2(m) if yes else np.full(m.shape, self.init)
        return tuple(l.kq.fbw.shape) == m.shape and bool(np.allclose(l.kq.fbw.numpy(), want, atol=tol))

    def inputs(self, v):
        return dict(w=v.dyadic('w', self.shape, -6, -256, 256))

    def run(self, ins):
        if self.unbuilt:
            self.q = type(self.q)(self.init, self.skip)
        else:
            put(self.q.fbw, np.full(self.q.fbw.shape, self.init, 'float32'))
        self.q.adapt_bw_bits(ins['w'])
        return dict(f=get(self.q.fbw))

    def prop(self, ins, outs):
        f, w = A(outs['f']), A(ins['w'])
        sh = shared(len(self.shape), self.skip)
        want = tuple(1 if d in sh else n for d, n in enumerate(self.shape))
        r = [(f'initial kernel bitwidths of a layer ({n})', v) for n, v in self.layer.items()]
        if f.shape != want:
            return r + [('one bitwidth per group', False)]
        ok = []
        for pos in np.ndindex(*want):
            m = ZERO
            for o in np.ndindex(*self.shape):
                if all(a == b or d in sh for d, (a, b) in enumerate(zip(o, pos))):
                    m = maximum(m, absolute(w[o]))
            nz = b_not(core.unb(eq(m, ZERO)))
            if core.is_special(core.lift(f[pos])):
                ok.append(b_not(nz))
                continue
            if core.CTX is None:
                v = float(Fraction(self.init) - core.eval_scalar(None, core.lift(f[pos])))
                mm = float(core.eval_scalar(None, core.lift(m)))
                ok.append(b_or(mm == 0, abs(2 ** v - mm) <= mm * 2 ** -10))
                continue
            t = sub(D(self.init, 0), core.lift(f[pos]), N)
            ok.append(b_implies(nz, core.unb(core.near(power(TWO, t, None), m))))
        return r + [('the bitwidth is the initial one less the base-2 logarithm of the largest magnitude of the group', b_and(*ok))]


NAMES = (None, 'none', 'all', 'batch', 'except_last', 'except_1st')


def subsets(rank):
    return [s for n in range(rank + 1) for s in itertools.combinations(range(rank), n)]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for rank in range(1, 6):
        for skip in NAMES + tuple(subsets(rank) if rank <= 4 or T else [s for s in subsets(rank) if len(s) in (1, 4)]):
            for unknown in (False, True):
                hs.append(Shape(f'shape{rank}[{skip}{",batch unknown" if unknown else ""}]', rank=rank, skip=skip, unknown=unknown))
    hs.append(Shape('shape3[negative]', rank=3, skip=(0, -1), unknown=True))
    small = dict(plain=[(2, 2), (2, 1, 2)], activation=[(1, 2, 2)], preact=[(1, 2, 2)], dense=[(2, 2)], conv1=[(2, 1, 2)], conv2=[(1, 2, 1, 2)])
    for where, shapes in small.items():
        for shape in shapes:
            act = where in ('activation', 'preact')
            opts = [s for s in NAMES + tuple(subsets(len(shape))) if not act or 0 in shared(len(shape), s)]
            if where == 'conv2' and not T:
                opts = [None, 'all', 'except_last', (0, 1), (2,), (1, 3), 'batch']
            for skip in opts:
                hs.append(Built(f'{where}{shape}[{skip}]', where=where, shape=shape, skip=skip))
    for init, skip, shape in ((2, None, (2,)), (1, 'all', (2, 2)), (6, (0,), (2, 2)), (2, 'except_last', (2, 1, 2)), (2, (1,), (2, 2))):
        hs.append(Adapt(f'adapt[{skip},{init}]', init=init, skip=skip, shape=shape, fused=skip in (None, 'except_last')))
    hs.append(Adapt('adapt[unbuilt]', init=3, skip=(0,), shape=(2, 2), unbuilt=True))
    return hs
