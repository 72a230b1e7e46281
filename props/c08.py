import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def conf(strat, skip=None, bw=2):
    import HGQ as H
    p = dict(H.get_default_paq_conf(), rnd_strategy=strat)
    if skip is not None:
        p['skip_dims'] = skip
    return p


def kconf(skip=None):
    import HGQ as H
    k = dict(H.get_default_kq_conf())
    if skip is not None:
        k['skip_dims'] = skip
    return k


def zoo():
    """name -> (input shapes, builder(list of keras inputs, quantizer conf p, relu flag) -> outputs)"""
    import tensorflow as tf
    import HGQ.layers as H
    L = tf.keras.layers
    act = lambda r: 'relu' if r else None  # noqa: E731

    def dense(xs, p, r, **k):
        return H.HDense(2, activation=act(r), paq_conf=p, kq_conf=kconf(), **k)(H.HQuantize(paq_conf=p)(xs[0]))

    def deep(xs, p, r):
        h = H.HQuantize(paq_conf=p)(xs[0])
        h = H.HDense(2, activation='relu', paq_conf=p, kq_conf=kconf())(h)
        return H.HDense(1, activation=act(r), paq_conf=p, kq_conf=kconf())(h)

    def bn(xs, p, r, **k):
        return H.HDenseBatchNorm(2, activation=act(r), paq_conf=p, kq_conf=kconf(), **k)(H.HQuantize(paq_conf=p)(xs[0]))

    def conv1(xs, p, r, **k):
        return H.HConv1D(2, 2, activation=act(r), paq_conf=p, kq_conf=kconf(), **k)(H.HQuantize(paq_conf=p)(xs[0]))

    def conv1s(xs, p, r):
        return conv1(xs, p, r, strides=2, padding='same')

    def conv2(xs, p, r, **k):
        return H.HConv2D(1, (2, 2), activation=act(r), paq_conf=p, kq_conf=kconf(), **k)(H.HQuantize(paq_conf=p)(xs[0]))

    def convbn(xs, p, r):
        return H.HConv1DBatchNorm(1, 2, activation=act(r), paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=p)(xs[0]))

    def conv2bn(xs, p, r):
        return H.HConv2DBatchNorm(1, (1, 2), activation=act(r), paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=p)(xs[0]))

    def addm(xs, p, r):
        a, b = [H.HQuantize(paq_conf=p)(x) for x in xs]
        return H.HAdd(paq_conf=p)([a, b]) if not r else H.HActivation('relu', paq_conf=p)(H.HAdd(paq_conf=p)([a, b]))

    def quantize(xs, p, r):
        h = H.HQuantize(paq_conf=p)(xs[0])
        return H.HActivation('relu' if r else 'linear', paq_conf=p)(h)

    def shuffle(xs, p, r):
        h = H.HQuantize(paq_conf=p)(xs[0])
        h = H.PPermute((2, 1))(H.PReshape((2, 2))(h))
        return H.HActivation('relu' if r else 'linear', paq_conf=p)(H.PFlatten()(h))

    def concat(xs, p, r):
        a, b = [H.HQuantize(paq_conf=p)(x) for x in xs]
        return H.HDense(1, activation=act(r), paq_conf=p, kq_conf=kconf())(H.PConcatenate()([b, a]))

    def pool(xs, p, r, cls='PMaxPooling1D', **k):
        h = H.HQuantize(paq_conf=p)(xs[0])
        return H.HActivation('relu' if r else 'linear', paq_conf=p)(getattr(H, cls)(2, **k)(h))

    def pool2(xs, p, r, cls='PMaxPooling2D'):
        h = H.HQuantize(paq_conf=p)(xs[0])
        return H.HActivation('relu' if r else 'linear', paq_conf=p)(getattr(H, cls)((1, 2))(h))

    def sign(xs, p, r):
        return H.HDense(1, activation=act(r), paq_conf=p, kq_conf=kconf())(H.Signature(1, 5, 3)(xs[0]))
    import functools
    P = functools.partial
    return dict(
        dense=([(2,)], dense), dense_nobias=([(2,)], P(dense, use_bias=False)), dense2=([(2, 1)], dense), deep=([(2,)], deep),
        bn=([(2,)], bn), bn_nocenter=([(2,)], P(bn, center=False)), bn_noscale=([(2,)], P(bn, scale=False)), bn_nobias=([(2,)], P(bn, use_bias=False)),
        conv1=([(3, 1)], conv1), conv1_nobias=([(3, 1)], P(conv1, use_bias=False)), conv1_same=([(3, 1)], conv1s), conv2=([(2, 3, 1)], conv2), convbn=([(3, 1)], convbn), conv2bn=([(1, 3, 1)], conv2bn),
        add=([(2,), (2,)], addm), quantize=([(3,)], quantize), shuffle=([(4,)], shuffle), concat=([(1,), (2,)], concat),
        maxpool=([(4, 1)], pool), avgpool=([(4, 1)], P(pool, cls='PAveragePooling1D')), maxpool_same=([(3, 1)], P(pool, strides=2, padding='same')), maxpool2=([(1, 4, 1)], pool2), avgpool2=([(1, 4, 1)], P(pool2, cls='PAveragePooling2D')),
        sign=([(2,)], sign))


def scramble(model, rng, flo, fhi, prune=True, bn_pow2=True):
    """random dyadic weights, integer bitwidths per quantizer element, some elements pruned"""
    for l in model.layers:
        for w in l.weights:
            n, s = w.name, w.shape
            if 'moving_variance' in n:
                v = (rng.choice([1., 4., .25], s) - float(l.epsilon)) if bn_pow2 else rng.uniform(.5, 2, s)
            elif 'kernel_bw' in n:
                v = rng.integers(0, 4, s).astype('f')
                if prune and v.size > 1:
                    v[rng.random(s) < .15] = -8
            elif 'activation_bw' in n:
                v = rng.integers(flo, fhi + 1, s).astype('f')
                if prune and v.size > 1:
                    v[rng.random(s) < .1] = -8
            elif 'beta:0' in n and 'bn_beta' not in n:
                continue
            elif any(t in n for t in ('kernel:0', 'bias:0', 'bn_beta', 'bn_gamma', 'moving_mean')):
                v = rng.integers(-12, 13, s) / 8.
            else:
                continue
            w.assign(np.asarray(v, 'float32').reshape(s))


def build(name, strat, skip, relu):
    import tensorflow as tf
    shapes, f = zoo()[name]
    ins = [tf.keras.layers.Input(s) for s in shapes]
    p = conf(strat, skip)
    m = tf.keras.Model(ins if len(ins) > 1 else ins[0], f(ins, p, relu))
    return m, shapes


def hlayers(model):
    from HGQ.layers.base import HLayerBase
    return [l for l in model.layers if isinstance(l, HLayerBase)]


class Match(Harness):
    functions = ['HGQ.proxy.convert.to_proxy_model', 'ProxyLayerXFormer (every registered layer type)', 'to_keras_layer', 'copy_fused_weights', 'HLayerBase.fused_qkernel', 'HLayerBase.fused_qbias', 'HLayerBase.can_bias_cover_rnd', 'HGQ.get_bits_exact', 'gfixed_quantizer', 'forward pass of the quantized layers']
    bounds = 'every input on the grid 2^-4 with |x| <= 4 that keeps all quantizers in their calibrated range; one model per harness with concrete seeded weights (multiples of 1/8), concrete seeded bitwidths incl. pruned elements, calibrated on 24 random inputs'
    assumptions = ['inputs of a Signature layer are of the declared type', 'batch-norm scales are rounded as float32 computes them for the concrete statistics of the harness']
    max_paths = 2000

    def setup(self):
        from HGQ import trace_minmax, to_proxy_model
        from HGQ.layers.base import ABSBaseLayer
        ABSBaseLayer.input_bw = property(lambda l: None)      # the training-time BOPs estimate (C12) is not part of this property: skip its cost
        rng = np.random.default_rng(self.seed)
        self.m, self.shapes = build(self.net, self.strat, self.skip, self.relu)
        scramble(self.m, rng, self.f[0], self.f[1])
        cal = [np.round(rng.normal(0, 1.5, (24,) + s).clip(-4, 4) * 16).astype('float32') / 16 for s in self.shapes]
        trace_minmax(self.m, cal if len(cal) > 1 else cal[0], verbose=False, no_bops_computation=True)
        for l in hlayers(self.m):
            l.record_minmax = False
        self.p = [to_proxy_model(self.m, aggressive=True), to_proxy_model(self.m, aggressive=False)]
        self.rng0 = [(l, l.paq._min.numpy(), l.paq._max.numpy()) for l in hlayers(self.m)]

    def inputs(self, v):
        return {f'x{i}': v.dyadic(f'x{i}', (1,) + s, -4, -64, 64) for i, s in enumerate(self.shapes)}

    def assume(self, ins):
        if self.net != 'sign':
            return True
        return [b_and(core.unb(eq(floor(mul(a, D(4, 0), N)), mul(a, D(4, 0), N))), core.unb(lt(a, D(4, 0)))) for a in A(ins['x0']).reshape(-1)]     # of the declared type

    def run(self, ins):
        x = [ins[f'x{i}'] for i in range(len(self.shapes))]
        x = x if len(x) > 1 else x[0]
        outs = dict(wrap=self.p[0](x), sat=self.p[1](x))
        for l, a, b in self.rng0:
            l.record_minmax = True
            put(l.paq._min, a)
            put(l.paq._max, b)
        try:
            outs['y'] = self.m(x, training=False)
        finally:
            for l, a, b in self.rng0:
                l.record_minmax = False
        for i, (l, a, b) in enumerate(self.rng0):
            outs[f'mn{i}'], outs[f'mx{i}'] = get(l.paq._min), get(l.paq._max)
            put(l.paq._min, a)
            put(l.paq._max, b)
        return outs

    def prop(self, ins, outs):
        inr = []
        for i, (l, a, b) in enumerate(self.rng0):
            for u, w in ((A(outs[f'mn{i}']), A(a)), (A(outs[f'mx{i}']), A(b))):
                inr += [core.unb(eq(s, t)) for s, t in zip(u.reshape(-1), w.reshape(-1))]
        inr = b_and(*inr)
        return [('wrapping proxy gives the quantized output', b_implies(inr, core.unb(eq_arr(outs['wrap'], outs['y'])))),
                ('saturating proxy gives the quantized output', b_implies(inr, core.unb(eq_arr(outs['sat'], outs['y']))))]


class SymConv(Harness):
    """The conversion itself runs symbolically: recorded range, bitwidths and weights are symbolic."""
    functions = ['ProxyLayerXFormer.__call__ and get_kbiRS', 'to_keras_layer', 'copy_fused_weights', 'fused_qkernel', 'fused_qbias', 'get_bits_exact', 'FixedPointQuantizer', 'gfixed_quantizer']
    bounds = 'one layer, 1 or 2 output elements; recorded min <= max any grid values in the stated box, fractional bitwidth k/2 in the stated box, kernel and bias multiples of 1/4 in [-1,1], input multiples of 1/8 in [-2,2]'
    assumptions = ['recorded values lie on the grid of the quantizer (C04)', 'the float32 base-2 logarithm is correct at and next to powers of two inside the bounds']
    max_paths = 20000

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ.layers.base import ABSBaseLayer
        from HGQ.proxy.convert import ProxyLayerXFormer
        ABSBaseLayer.input_bw = property(lambda l: None)
        self.X = ProxyLayerXFormer(self.sat)
        p = conf(self.strat, self.skip)
        self.n = 1
        if self.kind == 'quantize':
            self.n, self.l = 2, H.HQuantize(paq_conf=p)
        elif self.kind == 'act':
            self.n, self.l = 2, H.HActivation('relu', paq_conf=p)
        else:
            self.l = H.HDense(self.units, activation=self.act, use_bias=self.bias, paq_conf=p, kq_conf=kconf())
        self.l(tf.keras.layers.Input((self.n,)))
        self.fs = tuple(self.l.paq.fbw.shape)

    def inputs(self, v):
        m = self.lim
        d = dict(x=v.dyadic('x', (1, self.n), -3, -16, 16), mn=v.dyadic('mn', self.fs, -2, -m, m), mx=v.dyadic('mx', self.fs, -2, -m, m), fbw=v.dyadic('fbw', self.fs, -1, *self.f))
        if self.kind == 'dense':
            d['w'] = v.dyadic('w', (1, self.units), -2, -4, 4)
            if self.bias:
                d['b'] = v.dyadic('b', (self.units,), -2, -4, 4)
        return d

    def assume(self, ins):
        r = []
        for a, b, f in zip(A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1), A(ins['fbw']).reshape(-1)):
            for t in (a, b):
                t = mul(t, pow2(round_even(f)), N)
                r.append(eq(floor(t), t))
            r.append(le(a, b))
        return r

    def run(self, ins):
        l, q = self.l, self.l.paq
        put(q.fbw, ins['fbw'])
        put(q._min, ins['mn'])
        put(q._max, ins['mx'])
        if self.kind == 'dense':
            put(l.kq.fbw, np.full(l.kq.fbw.shape, self.kf, 'float32'))
            put(l.kernel, ins['w'])
            if self.bias:
                put(l.bias, ins['b'])
        pl = self.X(l)
        yp = pl(ins['x'])
        act = l.activation if hasattr(l, 'activation') and self.kind == 'dense' else None
        y = l(ins['x'], training=False, record_minmax=True)
        return dict(y=y, yp=yp, mn=get(q._min), mx=get(q._max))

    def prop(self, ins, outs):
        inr = []
        for u in ('mn', 'mx'):
            inr += [core.unb(eq(s, t)) for s, t in zip(A(outs[u]).reshape(-1), A(ins[u]).reshape(-1))]
        return [('proxy layer gives the quantized output in range', b_implies(b_and(*inr), core.unb(eq_arr(outs['yp'], outs['y']))))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    S = ['auto', 0, 3]
    n = 0
    nets = ['dense', 'dense_nobias', 'dense2', 'deep', 'bn', 'bn_nocenter', 'bn_noscale', 'bn_nobias', 'conv1', 'conv1_nobias', 'conv1_same', 'conv2', 'convbn', 'conv2bn', 'add', 'quantize', 'shuffle', 'concat', 'maxpool', 'avgpool', 'maxpool_same', 'maxpool2', 'avgpool2', 'sign']
    for i, net in enumerate(nets):
        for relu in (0, 1):
            for skip in ((0,), 'all') if not T else ((0,), 'all', 'batch'):
                for strat in (S[(i + relu + (skip == 'all')) % 3],) if not T else (0, 1, 2, 3, 'auto'):
                    for rep in range(1 if not T else 2):
                        n += 1
                        hs.append(Match(f'{net}[relu={relu},{skip},{strat},{rep}]', net=net, relu=relu, skip=skip, strat=strat, f=(0, 2), seed=n))
    for j, (kind, kw) in enumerate([('quantize', {}), ('act', {}), ('dense', dict(act=None, bias=True, units=1)), ('dense', dict(act='relu', bias=True, units=1)), ('dense', dict(act='relu', bias=False, units=1))]):
        for sat in ('WRAP', 'SAT'):
            strats = (0, 3) if T else ((0, 3)[(j + (sat == 'SAT')) % 2],)
            if kind == 'dense':
                strats = (0, 3)
            for strat in strats:
                for skip in (('all', (0,)) if T else ('all',)) if kind != 'dense' else ((0,),):
                    hs.append(SymConv(f'convert {kind}{kw}[{sat},{strat},{skip}]', kind=kind, sat=sat, strat=strat, skip=skip, f=(0, 3), lim=8 if not T else 16, kf=2, cost=5, **kw))
    return hs
