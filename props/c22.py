import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def const(x):
    return from_fraction(Fraction(float(x)))


def total(ts):
    r = ZERO
    for t in ts:
        r = add(r, t, N)
    return r


class Objective(Harness):
    """model.losses after a forward pass: strength times BOPs, and each regularizer on its bitwidths, once"""
    cost = 4
    functions = ['HLayerBase.init_quantizers (add_weight with regularizer)', 'HDense.forward, HConv.forward, HDenseBatchNorm.forward, HConvBatchNorm.forward (add_loss)', 'MonoL1.__call__']
    bounds = 'one network per harness; the bitwidth of every quantizer (one or two per quantizer) any multiple of 1/2 in the stated box (quick: a third of them at a time, the others concrete), concrete weights and input; distinct strengths and regularization factors (powers of two)'
    assumptions = ['the float32 logarithm is exact at the powers of two inside the bounds']

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        from HGQ.utils.utils import MonoL1
        I, K = tf.keras.layers.Input, tf.keras
        self.n = 0
        self.reg = []                     # (layer, 'kq' or 'paq', factor)
        self.hl = []                      # (layer, strength)
        self.stock = []                   # (variable, factor) of stock L1 regularizers

        def mk(C, *a, kernel=False, beta=True, skip=('all', 'all'), none=False, **kw):
            self.n += 1
            f1, f2 = 2. ** -self.n, 2. ** (self.n - 2)
            conf = dict(paq_conf=dict(H.get_default_paq_conf(), skip_dims=skip[1], init_bw=3, rnd_strategy='standard_round', regularizer=None if none else MonoL1(f1)))
            if kernel:
                conf.update(kq_conf=dict(H.get_default_kq_conf(), skip_dims=skip[0], init_bw=2, regularizer=MonoL1(f2)), do_adapt_kernel_bits=False)
            b = 2. ** (self.n - 4) if beta and self.beta else 0.
            l = C(*a, beta=b, **conf, **kw)
            self.hl.append((l, b))
            self.reg.append((l, 'paq', 0. if none else f1))
            if kernel:
                self.reg.append((l, 'kq', f2))
            return l
        import HGQ.layers as HL
        bn = dict(epsilon=.25) if 'bn' in self.kind else {}
        if self.kind == 'dense':
            i = I((2,))
            y = mk(HL.HDense, 1, kernel=True)(mk(HL.HDense, 2, kernel=True, activation='relu', kernel_regularizer=K.regularizers.L1(.25), bias_regularizer=K.regularizers.L1(.125))(mk(HL.HQuantize)(i)))
        elif self.kind == 'each':
            i = I((2,))
            y = mk(HL.HDense, 1, kernel=True, skip=((1,), (0,)))(mk(HL.HQuantize, skip=(None, (0,)), none=True)(i))
        elif self.kind in ('conv1', 'conv1bn'):
            i = I((3, 1))
            C = HL.HConv1D if self.kind == 'conv1' else HL.HConv1DBatchNorm
            y = mk(HL.HDense, 1, kernel=True)(HL.PFlatten()(mk(C, 2, 2, kernel=True, parallel_factor=2, **bn)(mk(HL.HQuantize)(i))))
        elif self.kind == 'conv2':
            i = I((2, 2, 1))
            y = mk(HL.HConv2D, 1, (2, 1), kernel=True, activation='relu')(mk(HL.HQuantize)(i))
        elif self.kind == 'bn':
            i = I((2,))
            y = mk(HL.HDenseBatchNorm, 2, kernel=True, **bn)(mk(HL.HQuantize)(i))
        elif self.kind == 'add':
            i = I((2,))
            y = mk(HL.HActivation, 'relu')(mk(HL.HAdd)([mk(HL.HQuantize)(i), mk(HL.HActivation, 'tanh')(i)]))
        elif self.kind == 'nested':
            j = I((2,))
            inner = K.Model(j, mk(HL.HDense, 2, kernel=True)(mk(HL.HQuantize)(j)))
            i = I((2,))
            y = mk(HL.HActivation, 'relu')(inner(i))
        self.m = K.Model(i, y)
        rng = np.random.RandomState(3)
        for l, _ in self.hl:
            if hasattr(l, 'kernel') and l.kernel is not None:
                l.kernel.assign(rng.randint(-6, 7, l.kernel.shape) / 4.)
                if l.bias is not None:
                    l.bias.assign(rng.randint(-6, 7, l.bias.shape) / 4.)
            if hasattr(l, 'moving_variance'):
                l.moving_variance.assign(np.full(l.moving_variance.shape, .75))
        if self.kind == 'dense':
            l = next(l for l, _ in self.hl if isinstance(l, HL.HDense) and l.units == 2)
            self.stock = [(l.kernel.numpy(), .25), (l.bias.numpy(), .125)]
        self.x = (rng.randint(-8, 9, (2,) + tuple(i.shape[1:])) / 4.).astype('float32')
        # what is trained: weights and bitwidths, nothing else
        train = {id(v) for v in self.m.trainable_variables}
        self.ok = {}
        want = set()
        for l, _ in self.hl:
            for n in ('kernel', 'bias', 'bn_gamma', 'bn_beta'):
                v = getattr(l, n, None)
                if isinstance(v, tf.Variable):
                    want.add(id(v))
            want |= {id(getattr(l, q).fbw) for q in ('kq', 'paq') if hasattr(l, q)}
        never = {id(v) for l, _ in self.hl for v in (l.bops, l.beta, l.paq._min, l.paq._max, getattr(l, 'moving_mean', None), getattr(l, 'moving_variance', None)) if v is not None}
        self.ok['weights and bitwidths are trained'] = want == train
        self.ok['bookkeeping is never trained'] = not (never & train)

    def inputs(self, v):
        return {f'f{i}': v.dyadic(f'f{i}', tuple(getattr(l, q).fbw.shape), -1, *self.box) for i, (l, q, _) in enumerate(self.reg) if self.sym is None or i % 3 == self.sym}

    def bits(self, ins, i):
        if f'f{i}' in ins:
            return ins[f'f{i}']
        l, q, _ = self.reg[i]
        return np.full(tuple(getattr(l, q).fbw.shape), 1 + (i % 4) / 2, 'float32')

    def run(self, ins):
        import tensorflow as tf
        for i, (l, q, _) in enumerate(self.reg):
            put(getattr(l, q).fbw, self.bits(ins, i))
        for l, _ in self.hl:
            if self.training:
                l.reset_minmax()
            else:
                put(l.paq._min, np.full(tuple(l.paq.fbw.shape), -2, 'float32'))
                put(l.paq._max, np.full(tuple(l.paq.fbw.shape), 3, 'float32'))

        def f(x):
            with tf.GradientTape() as t:
                self.m(x, training=self.training)
                loss = tf.add_n(self.m.losses)
            vs = [getattr(l, q).fbw for l, q, _ in self.reg]
            g = t.gradient(loss, vs) if not self.beta else []
            return [loss] + [tf.zeros_like(v) if a is None else a for a, v in zip(g, vs)]
        loss, *gs = tf_call(f, self.x, key=('c22', self.name))
        return dict(loss=loss, **{f'b{i}': get(l.bops) for i, (l, _) in enumerate(self.hl)}, **{f'g{i}': g for i, g in enumerate(gs)})

    def prop(self, ins, outs):
        want = [mul(const(b), A(outs[f'b{i}']).item(), N) for i, (_, b) in enumerate(self.hl)]
        want += [mul(const(c), t, N) for i, (_, _, c) in enumerate(self.reg) for t in A(self.bits(ins, i)).reshape(-1)]
        want += [const(c * np.sum(np.abs(v))) for v, c in self.stock]
        r = [(n, b) for n, b in self.ok.items()]
        r.append(('the loss is strength times BOPs plus every regularizer once', teq(A(outs['loss']).item(), total(want))))
        if not self.beta:
            r.append(('each bitwidth is pulled by its own regularizer', b_and(*[core.unb(teq(t, const(c))) for i, (_, _, c) in enumerate(self.reg) for t in A(outs[f'g{i}']).reshape(-1)])))
        return r


class Frozen(Harness):
    """bitwidths of quantizers configured as not trainable, and of frozen layers"""
    functions = ['HLayerBase.init_quantizers (trainable)', 'HLayerBase.call', 'HDense.post_build', 'to_proxy_layers.__call__ (overrides)']
    bounds = 'every layer type, trainable on or off per quantizer and layer; the bitwidths still quantize: inputs multiples of 1/8 with |x| <= 2, bitwidth any multiple of 1/2 in [-1, 2]'

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        import HGQ.layers as HL
        self.ok = {}
        kinds = dict(HDense=((2,), (2,)), HConv1D=((2, 2), (3, 1)), HConv2D=((2, (1, 2)), (2, 2, 1)), HDenseBatchNorm=((2,), (2,)), HConv1DBatchNorm=((2, 2), (3, 1)), HQuantize=((), (2,)), HActivation=(('relu',), (2,)))
        for c, (a, s) in kinds.items():
            for kt, at, lt_ in ((True, True, True), (True, False, True), (False, True, True), (True, True, False)):
                kw = dict(kq_conf=dict(H.get_default_kq_conf(), trainable=kt)) if c[1] in 'DC' else {}
                l = getattr(HL, c)(*a, paq_conf=dict(H.get_default_paq_conf(), trainable=at), trainable=lt_, **kw)
                l(tf.keras.layers.Input(s))
                ids = {id(v) for v in l.trainable_variables}
                good = (id(l.paq.fbw) in ids) == (at and lt_)
                if kw:
                    good = good and (id(l.kq.fbw) in ids) == (kt and lt_) and (id(l.kernel) in ids) == lt_
                self.ok[f'{c} kernel bitwidths {kt}, activation bitwidths {at}, layer {lt_}'] = good
        # the declared parallelism reaches synthesis; a dense layer works on all positions at once unless told otherwise
        from HGQ.proxy import to_proxy_model
        I = tf.keras.layers.Input((5, 1))
        want = {}
        y = HL.HQuantize()(I)
        for l, pf in ((HL.HConv1D(2, 2, parallel_factor=2, activation='relu', name='c1'), 2), (HL.HConv1D(2, 1, name='c2'), 1), (HL.HDense(2, name='d1'), 4), (HL.HDense(2, parallel_factor=2, activation='relu', name='d2'), 2), (HL.HDenseBatchNorm(1, name='d3'), 4), (HL.HDenseBatchNorm(1, parallel_factor=2, name='d4'), 2)):
            y = l(y)
            want[l.name] = pf
        y = HL.HDense(1, name='d5')(HL.PFlatten()(y))
        want['d5'] = None
        m = tf.keras.Model(I, y)
        H.trace_minmax(m, np.random.RandomState(0).normal(0, 2, (16, 5, 1)).astype('float32'), verbose=False)
        got = dict.fromkeys(want)
        for l in to_proxy_model(m).layers:
            for n, c in (getattr(l, 'overrides', None) or {}).get('layers', {}).items():
                if 'parallelization_factor' in c:
                    got[n] = c['parallelization_factor']
        self.ok['declared parallelism reaches synthesis'] = got == want
        self.q = H.HQuantize(paq_conf=dict(H.get_default_paq_conf(), trainable=False, rnd_strategy='standard_round'))
        self.q(tf.keras.layers.Input((2,)))

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1, 2), -3, -16, 16), f=v.dyadic('f', (1, 2), -1, -2, 4))

    def run(self, ins):
        put(self.q.paq.fbw, ins['f'])
        return dict(y=self.q(ins['x'], training=False), f=get(self.q.paq.fbw))

    def prop(self, ins, outs):
        f = vec(round_even, A(ins['f']))
        return [(n, b) for n, b in self.ok.items()] + [('an untrained bitwidth quantizes all the same', eq_arr(outs['y'], vec(lambda a, b: quant(a, b, 'round'), A(ins['x']), f))), ('and stays', eq_arr(outs['f'], ins['f']))]


class Defaults(Harness):
    """layers created under changing defaults"""
    functions = ['set_default_kq_conf', 'set_default_paq_conf', 'get_default_kq_conf', 'get_default_paq_conf', 'HLayerBase.__init__']
    bounds = 'histories of up to five settings of the defaults and layers created in between; x multiples of 1/16 with |x| <= 2, bitwidths multiples of 1/2 in [-2, 3]'

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        I = tf.keras.layers.Input
        p0, k0 = H.get_default_paq_conf(), H.get_default_kq_conf()
        self.ls = []                 # (layer, clip and mode of its kernel quantizer, of its activation quantizer)

        def new(C, *a, own=None, **kw):
            l = C(*a, **({'paq_conf': own} if own else {}), **kw)
            self.ls.append([l, self.k, (own['bw_clip'], 'floor' if own['rnd_strategy'] == 'floor' else 'round') if own else self.p])
            return l
        try:
            self.p, self.k = (p0['bw_clip'], 'round'), (k0['bw_clip'], 'round')
            late = []
            for op in self.ops:
                if op == 'q':
                    new(H.HQuantize)(I((2,)))
                elif op == 'd':
                    new(H.HDense, 1)(I((2,)))
                elif op == 'late':               # built only after later changes
                    late.append(new(H.HDense, 1))
                elif op == 'own':
                    new(H.HDense, 1, own=dict(p0, bw_clip=(-1, 0), rnd_strategy='floor'))(I((2,)))
                elif op == 'copy':               # a copy that is altered
                    for g in (H.get_default_paq_conf, H.get_default_kq_conf):
                        c = g()
                        c.update(bw_clip=(0, 0), rnd_strategy='floor')
                elif op == 'bad':                # refused, and leaves things as they are
                    for s, g in ((H.set_default_paq_conf, p0), (H.set_default_kq_conf, k0)):
                        for c in ({x: y for x, y in g.items() if x != 'bw_clip'}, dict(g, nonsense=1), None):
                            try:
                                s(c)
                            except Exception:
                                continue
                            self.ls.append(None)
                elif op[0] == 'p':
                    H.set_default_paq_conf(dict(p0, bw_clip=op[1], rnd_strategy='floor' if op[2] == 'floor' else 'standard_round'))
                    self.p = op[1:]
                elif op[0] == 'k':
                    H.set_default_kq_conf(dict(k0, bw_clip=op[1], rnd_strategy='floor' if op[2] == 'floor' else 'standard_round'))
                    self.k = op[1:]
            for l in late:
                l(I((2,)))
        finally:
            H.set_default_paq_conf(p0)
            H.set_default_kq_conf(k0)

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1,), -4, -32, 32), f=v.dyadic('f', (1,), -1, -4, 6))

    def run(self, ins):
        o = {}
        for n, t in enumerate(self.ls):
            for q in ('kq', 'paq') if t is not None else ():
                q_ = getattr(t[0], q, None)
                if q_ is not None:
                    fs = np.broadcast_to(ins['f'].reshape((1,) * len(q_.fbw.shape)), tuple(q_.fbw.shape))
                    put(q_.fbw, fs)
                    shape = tuple(t[0].kernel.shape) if q == 'kq' else (1,) + tuple(t[0].paq.fbw.shape)[1:]
                    o[f'{q}{n}'] = q_(np.broadcast_to(ins['x'].reshape((1,) * len(shape)), shape), training=False)
        return o

    def prop(self, ins, outs):
        x, f = A(ins['x']).item(), A(ins['f']).item()
        r = [('a configuration with other keys is refused', all(t is not None for t in self.ls))]
        for n, t in enumerate(self.ls):
            for q, c in (('kq', 1), ('paq', 2)):
                if f'{q}{n}' in outs:
                    clip_, mode = t[c]
                    want = quant(x, frac_bits(f, clip_), mode)
                    r.append((f'layer {n} uses the configuration in effect when it was created ({q})', b_and(*[core.unb(teq(y, want)) for y in A(outs[f'{q}{n}']).reshape(-1)])))
        return r


class Auto(Harness):
    """automatic rounding"""
    functions = ['HLayerBase.post_build', 'HLayerBase.can_bias_cover_rnd', 'HActivation.post_build']
    bounds = 'every layer type with and without bias, every granularity of the output quantizer; values multiples of 1/16 with |x| <= 2, bitwidths multiples of 1/2 in [-1, 3]'

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        import HGQ.layers as HL
        C, a, s = dict(dense=(H.HDense, (2,), (2,)), conv1=(H.HConv1D, (2, 2), (3, 1)), conv2=(H.HConv2D, (2, (1, 2)), (2, 2, 1)), densebn=(H.HDenseBatchNorm, (2,), (2,)), quantize=(H.HQuantize, (), (2,)), relu=(HL.HActivation, ('relu',), (2,)), tanh=(HL.HActivation, ('tanh',), (2,)))[self.kind]
        kw = {} if self.bias is None else dict(use_bias=self.bias)
        self.l = C(*a, paq_conf=dict(H.get_default_paq_conf(), rnd_strategy='auto', skip_dims=self.skip, init_bw=2), **kw)
        out = self.l(tf.keras.layers.Input(s))
        self.shape = (1,) + tuple(out.shape[1:])
        fs = tuple(self.l.paq.fbw.shape)
        if self.kind in ('relu', 'tanh'):
            self.mode = 'round'
        else:                            # one bitwidth at all, or exactly one per channel: the bias absorbs the half step
            self.mode = 'round' if self.bias and (int(np.prod(fs)) == 1 or int(np.prod(fs[:-1])) == 1) else 'floor'

    def inputs(self, v):
        return dict(x=v.dyadic('x', (), -4, -32, 32), f=v.dyadic('f', (), -1, -2, 6))

    def run(self, ins):
        q = self.l.paq
        put(q.fbw, np.broadcast_to(ins['f'].reshape((1,) * len(q.fbw.shape)), tuple(q.fbw.shape)))
        x = np.broadcast_to(ins['x'].reshape((1,) * len(self.shape)), self.shape)
        return dict(y=q(x, training=False))

    def prop(self, ins, outs):
        want = quant(A(ins['x']).item(), round_even(A(ins['f']).item()), self.mode)
        return [(n, b_and(*[core.unb(teq(t, want)) for t in A(outs[o]).reshape(-1)])) for n, o in (('rounds half up where the bias absorbs it, truncates otherwise', 'y'),)]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for kind in ('dense', 'each', 'conv1', 'conv2', 'bn', 'conv1bn', 'add', 'nested'):
        for beta in (True, False):
            for sym in range(3) if not T else (None,):
                hs.append(Objective(f'objective[{kind},{"with" if beta else "without"} BOPs{"" if T else "," + str(sym)}]', kind=kind, beta=beta, training='bn' not in kind, sym=sym, box=(2, 4) if beta or T else (1, 5)))
    hs.append(Frozen('frozen'))
    P1, P2, K1, K2 = ('p', (-1, 1), 'floor'), ('p', (0, 2), 'round'), ('k', (-2, 0), 'floor'), ('k', (1, 3), 'round')
    for n, ops in dict(plain=('q', 'd', 'own'), one=('q', P1, 'q', 'd'), two=('d', P1, K1, 'd', P2, K2, 'd'), late=(P1, K1, 'late', P2, K2, 'd'), copy=(P2, K2, 'copy', 'd', 'own', 'q'), bad=(P2, K1, 'bad', 'd')).items():
        hs.append(Defaults(f'defaults[{n}]', ops=ops))
    for kind, skips in dict(dense=('batch', 'all', (0,)), conv1=('batch', 'all', 'except_last', (0, 2)), conv2=('batch', 'all', 'except_last', 'except_1st')).items():
        for bias in (True, False):
            for skip in skips:
                hs.append(Auto(f'auto[{kind},{bias},{skip}]', kind=kind, bias=bias, skip=skip))
    hs.append(Auto('auto[densebn]', kind='densebn', bias=True, skip='batch'))
    for kind in ('quantize', 'relu', 'tanh'):
        for skip in ('batch', 'all'):
            hs.append(Auto(f'auto[{kind},{skip}]', kind=kind, bias=None, skip=skip))
    return hs
