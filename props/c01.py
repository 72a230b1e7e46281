import numpy as np

from .oracle import *


class Q(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.__call__', 'HGQ.forward', 'q_round']
    bounds = 'x = k*2^-6, |x| <= 8 (1025 values per element); fbw = k*2^-3 in [-6, 6]; tensor shapes up to (2,2,2); 1 or 2 calls; also scaled by 2^10, 2^-12 and 2^-17 with bitwidths shifted accordingly'
    sh = 0               # everything scaled by 2^-sh

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., self.skip, rnd_strategy=self.strat, exact_q_value=self.exact, bw_clip=self.clip, minmax_record=False)
        self.q.build(self.shape)
        self.fshape = tuple(self.q.fbw.shape)

    def inputs(self, v):
        return dict(x=v.dyadic('x', self.shape, -6 - self.sh, -512, 512), fbw=v.dyadic('fbw', self.fshape, -3, (self.f[0] + self.sh) * 8, (self.f[1] + self.sh) * 8))

    def run(self, ins):
        put(self.q.fbw, ins['fbw'])
        kw = {} if self.training == 'default' else dict(training=self.training)
        y = self.q(ins['x'], **kw)
        f1 = get(self.q.fbw)
        y2 = self.q(y, **kw)
        return dict(y=y, y2=y2, fbw=f1)

    def prop(self, ins, outs):
        mode = STRATS[self.q.rnd_strategy]
        x, f0 = A(ins['x']), A(ins['fbw'])
        f = vec(lambda t: frac_bits(t, self.clip), f0)
        want = vec(lambda a, b: quant(a, b, mode), x, f)
        cl = f0 if self.clip is None else vec(lambda t: clip(t, *self.clip), f0)
        return [('quantized value is the grid point required', eq_arr(outs['y'], want)),
                ('bitwidth clipped into the clip range', eq_arr(outs['fbw'], cl)),
                ('quantizing twice changes nothing', eq_arr(outs['y2'], outs['y']))]


class Bias(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.bias_forward']
    bounds = 'bias = k*2^-6, |bias| <= 8; fbw = k*2^-2 in [-3, 4]; up to 4 bitwidths per channel'

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., (0,), rnd_strategy=self.strat, minmax_record=False)
        self.q.build(self.qshape)
        self.fshape = tuple(self.q.fbw.shape)

    def inputs(self, v):
        n = self.fshape[self.loc]
        return dict(b=v.dyadic('b', (n,), -6, -512, 512), fbw=v.dyadic('fbw', self.fshape, -2, -12, 16))

    def run(self, ins):
        put(self.q.fbw, ins['fbw'])
        if self.loc == -1 and self.default:
            return dict(y=self.q.bias_forward(ins['b'], self.training))
        return dict(y=self.q.bias_forward(ins['b'], self.training, self.loc))

    def prop(self, ins, outs):
        f = np.moveaxis(A(ins['fbw']), self.loc, 0)
        mode = STRATS[self.q.rnd_strategy]
        want = []
        for b, row in zip(A(ins['b']), f.reshape(f.shape[0], -1)):
            m = row[0]
            for t in row[1:]:
                m = maximum(m, t)
            want.append(quant(b, round_even(m), mode))
        return [('bias is the grid point of the finest bitwidth of its channel', eq_arr(outs['y'], np.array(want, dtype=object)))]


class Layer(Harness):
    """The same rule through the public HQuantize layer and a kernel quantizer of a dense layer."""
    cost = 9
    functions = ['HGQ.layers.misc.HQuantize.call', 'HGQ.layers.base.HLayerBase.call', 'HLayerBase.fused_qkernel']
    bounds = 'x, kernel = k*2^-5, |.| <= 4; activation fbw = k*2^-2 in [-3, 4] (clip -1..2), kernel fbw = k*2^-1 in [-3, 4] (clip 0..2)'

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        conf = H.get_default_paq_conf()
        conf.update(rnd_strategy=self.strat, skip_dims=self.skip, bw_clip=(-1, 2))
        kconf = H.get_default_kq_conf()
        kconf.update(rnd_strategy=self.strat, bw_clip=(0, 2), skip_dims=None if self.kskip is None else self.kskip)
        self.l = H.HQuantize(paq_conf=conf)
        self.d = H.HDense(2, kq_conf=kconf, paq_conf=conf)
        inp = tf.keras.layers.Input((2,))
        self.model = tf.keras.Model(inp, self.d(self.l(inp)))

    def inputs(self, v):
        return dict(x=v.dyadic('x', (2, 2), -5, -128, 128), k=v.dyadic('k', (2, 2), -5, -128, 128), fbw=v.dyadic('fbw', tuple(self.l.paq.fbw.shape), -2, -12, 16),
                    kfbw=v.dyadic('kfbw', tuple(self.d.kq.fbw.shape), -1, self.kf[0], self.kf[1]))

    def run(self, ins):
        put(self.l.paq.fbw, ins['fbw'])
        put(self.d.kernel, ins['k'])
        put(self.d.kq.fbw, ins['kfbw'])
        return dict(y=self.l(ins['x'], training=False), k=self.d.fused_qkernel)

    def prop(self, ins, outs):
        mode = 'floor' if self.strat in ('floor', 3) else 'round'
        mode_a = 'floor' if self.strat in ('floor', 3, 'auto') else 'round'
        f = vec(lambda t: frac_bits(t, (-1, 2)), A(ins['fbw']))
        kf = vec(lambda t: frac_bits(t, (0, 2)), A(ins['kfbw']))
        return [('HQuantize output on its grid', eq_arr(outs['y'], vec(lambda a, b: quant(a, b, mode_a), A(ins['x']), f))),
                ('deployed kernel on its grid', eq_arr(outs['k'], vec(lambda a, b: quant(a, b, mode), A(ins['k']), kf)))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for strat in (0, 1, 2, 3, 'standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor'):
        hs.append(Q(f'q[{strat}]', shape=(2, 2), skip=(0,), strat=strat, exact=True, clip=(-2, 3), f=(-4, 5), training=False))
    for strat in (0, 1, 2, 3):
        hs.append(Q(f'q[{strat},noclip,3d,inexact]', shape=(1, 2, 2), skip=(0, 1), strat=strat, exact=False, clip=None, f=(-3, 5), training=None))
        hs.append(Q(f'q[{strat},wide clip,default]', shape=(2, 2), skip=(0, 1), strat=strat, exact=False, clip=(-23, 23), f=(-6, 6), training='default'))
        hs.append(Q(f'q[{strat},except_1st]', shape=(1, 2, 2), skip='except_1st', strat=strat, exact=True, clip=(-1, 3), f=(-3, 4), training=False))
        for sh in (-10, 12, 17):
            hs.append(Q(f'q[{strat},scaled {sh}]', shape=(1, 2), skip='batch' if sh > 0 else 'all', strat=strat, exact=True, clip=(-23, 23), f=(-4, 6) if sh < 17 else (2, 8), training=False, sh=sh))
        hs.append(Q(f'q[{strat},none]', shape=(1, 2), skip='none', strat=strat, exact=True, clip=(-1, 3), f=(-3, 4), training=False))
        hs.append(Bias(f'bias[{strat}]', qshape=(2, 2, 2), strat=strat, loc=-1, training=False, default=False))
        hs.append(Bias(f'bias[{strat},1st]', qshape=(2, 2, 2), strat=strat, loc=1, training=None, default=False))
        hs.append(Bias(f'bias[{strat},default]', qshape=(2, 2), strat=strat, loc=-1, training=False, default=True))
    for strat in ('standard_round', 'floor', 'stochastic_round'):
        hs.append(Layer(f'layer[{strat}]', strat=strat, skip=(0,), kskip=(0,), kf=(-2, 6)))
        hs.append(Layer(f'layer[{strat},shared]', strat=strat, skip=(0, 1), kskip='all', kf=(-6, 8)))
    if T:
        for strat in (0, 1, 2, 3):
            hs.append(Q(f'T q[{strat},elementwise]', shape=(1, 3), skip=(0,), strat=strat, exact=True, clip=(-4, 6), f=(-5, 7), training=False))
            hs.append(Q(f'T q[{strat},batch3]', shape=(3, 2, 2), skip=(0, 1), strat=strat, exact=True, clip=(-6, 8), f=(-8, 9), training=False))
    return hs
