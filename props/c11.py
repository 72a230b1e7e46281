import numpy as np

from .oracle import *
from .c08 import conf, kconf
from .c10 import cst, back

ZERO, ONE = D(0, 0), D(1, 0)
MOM = 0.75


def total(xs):
    t = ZERO
    for x in xs:
        t = add(t, x, N)
    return t


def linear(x, w):
    """unbiased linear output: matrix product, or valid convolution with stride one (channels last)"""
    ks = w.shape[:-2]
    osz = tuple(x.shape[1 + d] - ks[d] + 1 for d in range(len(ks))) if ks else x.shape[1:-1]
    o = np.empty((x.shape[0],) + osz + (w.shape[-1],), dtype=object)
    for idx in np.ndindex(*o.shape):
        n, pos, j = idx[0], idx[1:-1], idx[-1]
        o[idx] = total(mul(x[(n,) + tuple(p + q for p, q in zip(pos, kk)) + (c,)] if ks else x[(n,) + pos + (c,)], w[kk + (c, j)], N)
                       for kk in np.ndindex(*ks) for c in range(w.shape[-2]))
    return o


def moments(z):
    z2 = z.reshape(-1, z.shape[-1])
    n = D(z2.shape[0], 0)
    mean = np.array([div(total(z2[:, j]), n, N) for j in range(z2.shape[1])], dtype=object)
    var = np.array([div(total(mul(sub(a, m, N), sub(a, m, N), N) for a in z2[:, j]), n, N) for j, m in enumerate(mean)], dtype=object)
    return mean, var


def rsqrt(t):
    """symbolic: the uninterpreted function the interpreter uses (r > 0, r*r*t = 1); replay: a number"""
    t = core.lift(t)
    if isinstance(t, D) and t.conc:
        import math
        f = float(t.value) ** -.5
        if Fraction(f) ** 2 * t.value == 1:
            return from_fraction(Fraction(f))
        if core.CTX is None:
            return from_fraction(Fraction(f))
    if core.CTX is None:
        return from_fraction(Fraction(float(core.eval_scalar(None, t)) ** -.5))
    return core.R(core.uf('rsqrt', core.to_real(t)))


class Base(Harness):
    opt = {}
    n = 2
    eps = .25

    def make(self, **kw):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ.layers.base import ABSBaseLayer
        ABSBaseLayer.input_bw = property(lambda l: None)
        C, a, self.shape = dict(dense=(H.HDenseBatchNorm, (self.units,), (self.cin,)), dense2=(H.HDenseBatchNorm, (self.units,), (2, self.cin)), conv1=(H.HConv1DBatchNorm, (self.units, 2), (3, self.cin)), conv2=(H.HConv2DBatchNorm, (self.units, (1, 2)), (2, 2, self.cin)))[self.kind]
        l = C(*a, paq_conf=conf(self.strat, self.skip), kq_conf=dict(kconf(), rnd_strategy=self.strat), momentum=MOM, epsilon=self.eps, do_adapt_kernel_bits=False, **self.opt)
        l(tf.keras.layers.Input(self.shape))
        self.l = l
        self.bias = l.use_bias
        return l

    def state(self):
        """variables of the normalization with their names"""
        d = dict(w=self.l.kernel)
        if self.bias:
            d['b'] = self.l.bias
        if self.l.center:
            d['be'], d['mm'] = self.l.bn_beta, self.l.moving_mean
        if self.l.scale:
            d['ga'], d['mv'] = self.l.bn_gamma, self.l.moving_variance
        return d

    def fuse(self, w, s, mean, var, qk=None):
        """(kernel scale, fused kernel, fused bias) for the given statistics"""
        u = w.shape[-1]
        one = np.array([ONE] * u, dtype=object)
        sc = vec(lambda g, v: mul(g, rsqrt(add(v, from_fraction(Fraction(self.eps)), N)), N), s['ga'], var) if self.l.scale else one
        k = vec(lambda a, c: mul(a, c, N), w, sc)
        if not self.bias:
            return k, None
        if not self.l.center:
            return k, s['b']
        return k, vec(lambda b, m, c, e: add(sub(b, mul(m, c, N), N), e, N), s['b'], mean, sc, s['be'])

    def train_stats(self, x, w, s):
        mean, var = moments(linear(x, w))
        if self.bias:
            mean = vec(lambda a, b: add(a, b, N), mean, s['b'])
        return mean, var


class Formula(Base):
    """Over the reals with the grid ignored: training output, inference output, statistics update."""
    functions = ['HDenseBatchNorm.forward', 'HDenseBatchNorm.bn_train_jit_forward', 'HConvBatchNorm.forward', 'HConvBatchNorm.bn_train_jit_forward', 'HBatchNormBase.fused_kernel', 'HBatchNormBase.fused_bias', 'HDense.jit_forward', 'HConv.jit_forward']
    bounds = 'inputs, kernel, bias, gamma, beta, moving mean and variance: all reals in [-3,3] (variance [1/8,4]); batch 2, up to 2 inputs and 2 units/filters; momentum 0.75, epsilon 0.25; two consecutive calls'
    assumptions = ['over the reals; quantization with 18 fractional bits is treated as the identity', 'rsqrt is an uninterpreted function with r > 0 and r*r*t = 1']
    float_mode = 'real'
    tol = Fraction(1, 128)
    max_paths = 200
    strat, skip = 3, 'all'

    def setup(self):
        l = self.make()
        l.paq.fbw.assign(np.full(l.paq.fbw.shape, 18, 'float32'))
        l.kq.fbw.assign(np.full(l.kq.fbw.shape, 18, 'float32'))

    def inputs(self, v):
        d = dict(x=v.real('x', (self.n,) + self.shape, -3, 3))
        for k, var in self.state().items():
            d[k] = v.real(k, tuple(var.shape), *((Fraction(1, 8), 4) if k == 'mv' else (-3, 3)))
        return d

    def run(self, ins):
        core.REAL_FLOOR_ID[0] = core.CTX is not None
        try:
            st = self.state()
            for k, var in st.items():
                put(var, ins[k])
            outs = {}
            if self.how == 'inference':
                outs['y'] = self.l(ins['x'], training=False)
            elif self.how == 'train':
                outs['y'] = self.l(ins['x'], training=True)
            else:                                        # agreement: moving statistics set to the batch statistics
                outs['yt'] = self.l(ins['x'], training=True)
                s = {k: A(ins[k]) for k in st}
                mean, var = self.train_stats(A(ins['x']), A(ins['w']), s)
                if 'mm' in st:
                    put(st['mm'], back(mean, None))
                if 'mv' in st:
                    put(st['mv'], back(var, None))
                outs['y'] = self.l(ins['x'], training=False)
            for k, var in st.items():
                if self.how != 'agree':
                    outs['after_' + k] = get(var)
            return outs
        finally:
            core.REAL_FLOOR_ID[0] = False

    def prop(self, ins, outs):
        s = {k: A(ins[k]) for k in self.state()}
        x, w = A(ins['x']), s['w']
        eqs = lambda a, b: A(a).shape == A(b).shape and claim_all(lambda p, q: core.near(p, q, self.tol), A(a), A(b))  # noqa: E731
        if self.how == 'agree':
            return [('training and inference agree on equal statistics', eqs(outs['y'], outs['yt']))]
        r = []
        if self.how == 'train':
            mean, var = self.train_stats(x, w, s)
        else:
            mean, var = s.get('mm'), s.get('mv')
        k, b = self.fuse(w, s, mean, var)
        y = linear(x, k)
        if b is not None:
            y = vec(lambda a, c: add(a, c, N), y, b)
        if self.opt.get('activation') == 'relu':
            y = vec(lambda a: maximum(a, ZERO), y)
        r.append((f'{self.how} output', eqs(outs['y'], y)))
        m = from_fraction(Fraction(MOM))
        upd = lambda old, new: add(mul(m, old, N), mul(sub(ONE, m, N), new, N), N)  # noqa: E731
        for key in s:
            want = s[key]
            if self.how == 'train' and key in ('mm', 'mv'):
                want = vec(upd, s[key], mean if key == 'mm' else var)
            r.append((f'{key} after the call', eqs(outs['after_' + key], want)))
        return r


class Exact(Base):
    """With the quantization: statistics chosen so that the scale is a power of two, everything else symbolic."""
    functions = Formula.functions + ['HGQ.__call__', 'HGQ.bias_forward', 'HLayerBase.fused_qkernel', 'HLayerBase.fused_qbias']
    bounds = 'bias, gamma, beta, moving mean: multiples of 1/4 with |.| <= 2; at inference also kernel; epsilon 7/16, moving variance 9/16 or 57/16, batch and kernel in training concrete with a variance that makes the scale exact; fractional bits of kernel and output concrete per element'
    float_mode = 'real'
    tol = Fraction(1, 1024)
    eps = .4375

    def setup(self):
        l = self.make()
        rng = np.random.default_rng(self.seed)
        self.kf = rng.integers(0, 3, l.kq.fbw.shape).astype('float32')
        self.pf = rng.integers(-1, 3, l.paq.fbw.shape).astype('float32')
        l.kq.fbw.assign(self.kf)
        l.paq.fbw.assign(self.pf)

    def inputs(self, v):
        d = {}
        for k, var in self.state().items():
            if k == 'mv' or (k == 'w' and self.how == 'train'):
                continue
            d[k] = v.dyadic(k, tuple(var.shape), -2, -8, 8)
        return d

    def given(self, ins):
        s = {k: A(ins[k]) if k in ins else None for k in self.state()}
        rng = np.random.default_rng(self.seed + 100)
        raw = {k: ins[k] for k in s if s[k] is not None}
        if 'mv' in s:
            raw['mv'] = rng.choice([.5625, 3.5625], self.l.moving_variance.shape).astype('float32')
        if self.how == 'train':
            # the kernel of each channel sums to +-1/2 and the rows are c+3/2 and c-3/2 throughout: variance 9/16, plus epsilon 7/16 = 1
            w = rng.integers(-6, 7, self.l.kernel.shape).astype('float32') / 4
            w2 = w.reshape(-1, w.shape[-1])
            w2[-1] += rng.choice([.5, -.5], w.shape[-1]) - w2.sum(axis=0)
            raw['w'] = w
            x = np.zeros((self.n,) + self.shape, 'float32')
            x[0], x[1] = 1.5, -1.5
            x += rng.integers(-2, 3)
        else:
            x = rng.integers(-8, 9, (1,) + self.shape).astype('float32') / 4
        return x, raw

    def run(self, ins):
        x, raw = self.given(ins)
        for k, var in self.state().items():
            put(var, raw[k])
        return dict(y=self.l(x, training=self.how == 'train'))

    def prop(self, ins, outs):
        x, raw = self.given(ins)
        s = {k: A(v) if k in ins else cst(v) for k, v in raw.items()}
        x = cst(x)
        mode = STRATS[self.l.paq.rnd_strategy], STRATS[self.l.kq.rnd_strategy]
        # without scaling there is no rescaled kernel: the statistics are those of the quantized one
        ws = s['w'] if self.l.scale else vec(lambda a, f: quant(a, f, mode[1]), s['w'], cst(self.kf))
        mean, var = self.train_stats(x, ws, s) if self.how == 'train' else (s.get('mm'), s.get('mv'))
        k, b = self.fuse(s['w'], s, mean, var)
        k = vec(lambda a, f: quant(a, f, mode[1]), k, cst(self.kf))
        y = linear(x, k)
        if b is not None:
            cf = np.broadcast_to(np.max(self.pf.reshape(-1, self.pf.shape[-1]), axis=0), b.shape)
            y = vec(lambda a, c: add(a, c, N), y, vec(lambda a, f: quant(a, f, mode[0]), b, cst(cf)))
        y = vec(lambda a, f: quant(a, f, mode[0]), y, cst(self.pf))
        if self.opt.get('activation') == 'relu':
            y = vec(lambda a: maximum(a, ZERO), y)
        return [(f'{self.how} output with quantization', eq_arr(outs['y'], y))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    opts = [{}, dict(center=False), dict(scale=False), dict(use_bias=False), dict(center=False, scale=False), dict(activation='relu')]
    for kind in ('dense', 'dense2', 'conv1', 'conv2'):
        for i, opt in enumerate(opts):
            if kind in ('dense2', 'conv2') and i > 2 and not T:
                continue
            for how in ('train', 'inference', 'agree'):
                hs.append(Formula(f'{kind}{opt}[{how}]', kind=kind, opt=opt, how=how, cin=1, units=2 if kind == 'dense' else 1))
                if kind in ('dense', 'conv1') and i < 3:
                    hs.append(Formula(f'{kind}{opt}[{how},2in]', kind=kind, opt=opt, how=how, cin=2, units=1))
    n = 0
    for kind in ('dense', 'conv1', 'conv2', 'dense2'):
        for i, opt in enumerate(opts):
            if i == 4 and not T:
                continue
            for how in ('inference', 'train'):
                n += 1
                hs.append(Exact(f'quantized {kind}{opt}[{how}]', kind=kind, opt=opt, how=how, cin=2 if kind == 'dense' else 1, units=1, strat=(0, 3)[n % 2] if how == 'inference' else (0, 3)[(n // 2) % 2], skip=((0,), 'all')[(n // 3) % 2], seed=n))
    return hs
