import numpy as np

from .oracle import *
from .c08 import conf, kconf

ZERO = D(0, 0)


class Stock(Harness):
    """quantized layer == stock Keras layer on quantized weights -> output quantization -> activation"""
    functions = ['HDense.jit_forward', 'HConv.jit_forward', 'HConv.convolution_op', 'HLayerBase.call', 'HLayerBase.__init__ (activation)', 'HGQ.__call__', 'HGQ.bias_forward', 'HDenseBatchNorm / HConvBatchNorm forward at inference']
    bounds = 'x, kernel and bias all symbolic multiples of 1/8 or 1/4 with |.| <= 2; fractional bitwidths of kernel and output concrete and different per element (seeded; half-integers included); one option set per harness'
    symf = False
    assumptions = ['the TensorFlow convolution and matrix product are those of the graph interpreter of this framework, validated against TensorFlow on models of the explored paths']

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ.layers.base import ABSBaseLayer
        ABSBaseLayer.input_bw = property(lambda l: None)
        rng = np.random.default_rng(self.seed)
        K = tf.keras.layers
        opt = dict(self.opt)
        if self.kind == 'dense':
            mk = lambda C, **k: C(**opt, **k)  # noqa: E731
            C, S = H.HDense, K.Dense
        else:
            C, S = (H.HConv1D, K.Conv1D) if self.kind == 'conv1' else (H.HConv2D, K.Conv2D)
            mk = lambda C, **k: C(**opt, **k)  # noqa: E731
        self.act = opt.get('activation')
        self.l = mk(C, paq_conf=conf(self.strat, self.skip), kq_conf=dict(kconf(self.kskip), rnd_strategy=self.kstrat))
        opt['activation'] = None
        self.s = mk(S)
        self.l(K.Input(self.shape))
        self.s(K.Input(self.shape))
        self.kf = rng.integers(0, 6, self.l.kq.fbw.shape).astype('float32') / 2
        self.pf = rng.integers(-2, 5, self.l.paq.fbw.shape).astype('float32') / 2
        self.l.kq.fbw.assign(self.kf)
        self.l.paq.fbw.assign(self.pf)
        self.bias = opt.get('use_bias', True)

    def inputs(self, v):
        d = dict(x=v.dyadic('x', (self.n,) + self.shape, -2, -8, 8), w=v.dyadic('w', tuple(self.l.kernel.shape), -3, -16, 16))
        if self.bias:
            d['b'] = v.dyadic('b', tuple(self.l.bias.shape), -3, -16, 16)
        if self.symf:
            d['kf'] = v.dyadic('kf', tuple(self.l.kq.fbw.shape), -1, 0, 5)
            d['pf'] = v.dyadic('pf', tuple(self.l.paq.fbw.shape), -1, -2, 4)
        return d

    def run(self, ins):
        km, pm = (STRATS[q.rnd_strategy] for q in (self.l.kq, self.l.paq))
        put(self.l.kernel, ins['w'])
        kf, pf = (ins['kf'], ins['pf']) if self.symf else (self.kf, self.pf)
        put(self.l.kq.fbw, kf)
        put(self.l.paq.fbw, pf)
        kf, pf = (A(kf), A(pf)) if self.symf else (cst(kf), cst(pf))
        qw = vec(lambda a, f: quant(a, f, km), A(ins['w']), vec(round_even, kf))
        put(self.s.kernel, back(qw, ins['w']))
        if self.bias:
            put(self.l.bias, ins['b'])
            pf2 = pf.reshape(-1, pf.shape[-1])
            cf = np.empty(pf.shape[-1], dtype=object)
            for j in range(cf.size):
                cf[j] = pf2[0, j]
                for t in pf2[1:, j]:
                    cf[j] = maximum(cf[j], t)
            put(self.s.bias, back(vec(lambda a, f: quant(a, f, pm), A(ins['b']), vec(round_even, np.broadcast_to(cf, self.l.bias.shape))), ins['b']))
        return dict(y=self.l(ins['x'], training=False), z=self.s(ins['x']))

    def prop(self, ins, outs):
        pm = STRATS[self.l.paq.rnd_strategy]
        pf = A(ins['pf']) if self.symf else cst(self.pf)
        want = vec(lambda a, f: quant(a, f, pm), A(outs['z']), vec(round_even, pf))
        if self.act == 'relu':
            want = vec(lambda a: maximum(a, ZERO), want)
        return [('output is the stock layer on quantized weights, quantized, then activated', eq_arr(outs['y'], want))]


def cst(a):
    return vec(lambda t: from_fraction(Fraction(float(t))), np.asarray(a, dtype=object))


def back(o, like):
    """object array of exact scalars -> the kind of array the code takes"""
    from hgqsym.symarray import SymArray
    if core.CTX is not None:
        return SymArray(o, np.float32)
    return np.array([float(core.eval_scalar(None, v)) for v in o.reshape(-1)], 'float32').reshape(o.shape)


class Elementwise(Harness):
    functions = ['HAdd.forward', 'HActivation.__forward', 'HQuantize.forward']
    bounds = 'x = k*2^-3, |x| <= 4, output bitwidths k/2 in [-1,2] symbolic (shared) or concrete per element'

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        p = conf(self.strat, self.skip)
        self.l = dict(add=lambda: H.HAdd(paq_conf=p), quant=lambda: H.HQuantize(paq_conf=p), relu=lambda: H.HActivation('relu', paq_conf=p), linear=lambda: H.HActivation('linear', paq_conf=p),
                      leaky=lambda: H.HActivation(lambda t: tf.nn.leaky_relu(t, .25), paq_conf=p), relu6=lambda: H.HActivation(tf.nn.relu6, paq_conf=p), hard=lambda: H.HActivation(lambda t: tf.clip_by_value(t, -1., 2.) * 2., paq_conf=p), square=lambda: H.HActivation(lambda t: t * t, paq_conf=p))[self.kind]()
        I = tf.keras.layers.Input
        self.l([I((2,)) for _ in range(self.m)] if self.kind == 'add' else I((2,)))

    def inputs(self, v):
        d = {f'x{i}': v.dyadic(f'x{i}', (2, 2), -3, -32, 32) for i in range(self.m)}
        d['f'] = v.dyadic('f', tuple(self.l.paq.fbw.shape), -1, -2, 4)
        return d

    def run(self, ins):
        put(self.l.paq.fbw, ins['f'])
        x = [ins[f'x{i}'] for i in range(self.m)]
        return dict(y=self.l(x if self.kind == 'add' else x[0], training=False))

    def prop(self, ins, outs):
        z = A(ins['x0'])
        for i in range(1, self.m):
            z = vec(lambda a, b: add(a, b, N), z, A(ins[f'x{i}']))
        g = dict(relu=lambda a: maximum(a, ZERO), relu6=lambda a: clip(a, ZERO, D(6, 0)), hard=lambda a: mul(clip(a, D(-1, 0), D(2, 0)), D(2, 0), N), square=lambda a: mul(a, a, N),
                 leaky=lambda a: ite(lt(a, ZERO), mul(a, from_fraction(Fraction(1, 4)), N), a)).get(self.kind)
        if g:
            z = vec(g, z)
        mode = STRATS[self.l.paq.rnd_strategy]
        return [('output is the quantized sum / activation', eq_arr(outs['y'], vec(lambda a, f: quant(a, f, mode), z, vec(round_even, A(ins['f'])))))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    cases = [('dense', (2,), dict(units=2)), ('dense', (2,), dict(units=1, activation='relu')), ('dense', (2,), dict(units=2, use_bias=False)), ('dense', (2, 2), dict(units=1)), ('dense', (2, 1), dict(units=2, activation='relu')),
             ('conv1', (4, 1), dict(filters=1, kernel_size=2)), ('conv1', (4, 1), dict(filters=2, kernel_size=2, strides=2, activation='relu')), ('conv1', (3, 1), dict(filters=1, kernel_size=2, padding='same')), ('conv1', (4, 1), dict(filters=1, kernel_size=3, strides=2, padding='same')),
             ('conv1', (4, 1), dict(filters=1, kernel_size=2, dilation_rate=2)), ('conv1', (3, 2), dict(filters=2, kernel_size=2, groups=2)), ('conv1', (3, 2), dict(filters=1, kernel_size=2, use_bias=False)),
             ('conv2', (2, 3, 1), dict(filters=1, kernel_size=2)), ('conv2', (3, 2, 1), dict(filters=1, kernel_size=(2, 1), padding='same', activation='relu')), ('conv2', (3, 3, 1), dict(filters=1, kernel_size=(1, 2), strides=(2, 1))), ('conv2', (1, 2, 2), dict(filters=2, kernel_size=(1, 2), groups=2)),
             ('conv2', (3, 3, 1), dict(filters=1, kernel_size=2, dilation_rate=(2, 1))), ('conv2', (2, 3, 1), dict(filters=2, kernel_size=(1, 2), strides=(1, 2), padding='same', use_bias=False))]
    n = 0
    for i, (kind, shape, opt) in enumerate(cases):
        for strat in ((0, 3) if T else ((0, 3, 'auto', 1)[i % 4],)):
            for skip in (('all', (0,), 'except_last') if T else ((0,), ('all', 'except_last')[i % 2])):
                n += 1
                hs.append(Stock(f'{kind}{shape}{opt}[{strat},{skip}]', kind=kind, shape=shape, opt=opt, strat=strat, skip=skip, kskip=('none', 'all')[n % 2], kstrat=(0, 0, 3)[n % 3], n=1 if kind != 'dense' or T is False else 2, seed=n))
    for i, (kind, shape, opt, skip) in enumerate([('dense', (1,), dict(units=2), (0,)), ('dense', (2,), dict(units=1, activation='relu'), 'all'), ('dense', (2, 1), dict(units=1), (0,)), ('conv1', (3, 1), dict(filters=1, kernel_size=2), (0,)), ('conv2', (1, 3, 1), dict(filters=1, kernel_size=(1, 2), padding='same', strides=2, activation='relu'), 'all')]):
        hs.append(Stock(f'symbolic bitwidths {kind}{shape}{opt}', kind=kind, shape=shape, opt=opt, strat=(0, 3)[i % 2], skip=skip, kskip='all', kstrat=0, n=1, seed=i, symf=True, cost=5))
    for kind in ('add', 'quant', 'relu', 'linear', 'leaky', 'relu6', 'hard', 'square'):
        for strat in (0, 3):
            for m in (2, 3) if kind == 'add' else (1,):
                hs.append(Elementwise(f'{kind}[{strat},{m}]', kind=kind, strat=strat, m=m, skip='all'))
        if T:
            hs.append(Elementwise(f'T {kind}', kind=kind, strat=0, m=2 if kind == 'add' else 1, skip=(0,)))
    return hs
