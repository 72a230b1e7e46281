import numpy as np

from .oracle import *
from .c08 import conf, kconf
from .c10 import cst

ZERO, ONE = D(0, 0), D(1, 0)
KF = 2           # fractional bits of the kernels
KM = 6           # kernels are k/4 with |k| <= KM


def table(w, f):
    """f(|w| * 2^KF) by cases over the possible integers"""
    m = absolute(mul(w, D(1 << KF, 0), N))
    r = D(f(0), 0)
    for n in range(1, KM + 1):
        r = ite(eq(m, D(n, 0)), D(f(n), 0), r)
    return r


def exact_bits(n):
    return len(bin(n)[2:].strip('0')) if n else 0


def est_bits(n):
    return n.bit_length()


def total(xs):
    t = ZERO
    for x in xs:
        t = add(t, x, N)
    return t


def products(kind, ibw, wbw, opt):
    """sum over every multiplication of the layer, straight from the definition of the operation; ibw without batch axis"""
    if kind.startswith('dense'):
        return total(mul(ibw[pos + (c,)], wbw[c, j], N) for pos in np.ndindex(*ibw.shape[:-1]) for c in range(ibw.shape[-1]) for j in range(wbw.shape[-1])), 1
    rank = wbw.ndim - 2
    tup = lambda v: (v,) * rank if isinstance(v, int) else tuple(v)  # noqa: E731
    st, dil, same, groups = tup(opt.get('strides', 1)), tup(opt.get('dilation_rate', 1)), opt.get('padding') == 'same', opt.get('groups', 1)
    ks = wbw.shape[:rank]
    eff = [(k - 1) * d + 1 for k, d in zip(ks, dil)]
    n = ibw.shape[:rank]
    if same:
        out = [-(-a // s) for a, s in zip(n, st)]
        lo = [max((o - 1) * s + e - a, 0) // 2 for o, s, e, a in zip(out, st, eff, n)]
    else:
        out = [(a - e) // s + 1 for a, e, s in zip(n, eff, st)]
        lo = [0] * rank
    cin, cout = wbw.shape[rank], wbw.shape[rank + 1]
    ts = []
    for o in np.ndindex(*out):
        for kk in np.ndindex(*ks):
            p = tuple(o[d] * st[d] - lo[d] + kk[d] * dil[d] for d in range(rank))
            if any(q < 0 or q >= n[d] for d, q in enumerate(p)):
                continue
            for j in range(cout):
                g = j // (cout // groups)
                for c in range(cin):
                    ts.append(mul(ibw[p + (g * cin + c,)], wbw[kk + (c, j)], N))
    return total(ts), int(np.prod(out))


def source(shape):
    """upstream layer with arbitrary bitwidths"""
    import tensorflow as tf

    class Src(tf.keras.layers.Layer):
        def build(self, s):
            self.bw = tf.Variable(np.zeros((1,) + shape, 'float32'), trainable=False)

        def call(self, x):
            return x

        @property
        def act_bw(self):
            return tf.identity(self.bw)

        @property
        def act_bw_exact(self):
            return get(self.bw)
    return Src()


class Layer(Harness):
    functions = ['HDense.compute_exact_bops', 'HConv.compute_exact_bops', 'HDense.forward / HConv.forward (BOPs estimate)', 'HConv.convolution_op', 'HLayerBase.kernel_bw_exact', 'HLayerBase._kernel_bw', 'ABSBaseLayer.input_bw_exact']
    bounds = 'input bitwidths any integers 0..8 per element (exact BOPs of convolutions: 0..2, thorough 0..3); kernel elements k/4 with |k| <= 6 (symbolic one |k| <= 3 for convolutions in quick) (1 symbolic, thorough 2; the others concrete seeded), 2 fractional bits; one option set per harness'
    assumptions = ['the logarithm is correct at and next to powers of two inside the bounds']
    sym = 1
    wmax, km = 8, KM

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        C = dict(dense=H.HDense, dense_bn=H.HDenseBatchNorm, conv1=H.HConv1D, conv2=H.HConv2D, conv1_bn=H.HConv1DBatchNorm)[self.kind]
        self.src = source(self.shape)
        extra = dict(epsilon=1.) if 'bn' in self.kind else {}
        self.l = C(**self.opt, **extra, beta=self.beta, paq_conf=dict(conf(0), regularizer=None), kq_conf=dict(kconf('none'), rnd_strategy=0, regularizer=None), do_adapt_kernel_bits=False)
        self.l(self.src(tf.keras.layers.Input(self.shape)))
        self.l.kq.fbw.assign(np.full(self.l.kq.fbw.shape, KF, 'float32'))
        if 'bn' in self.kind:
            self.l.moving_variance.assign(np.full(self.l.moving_variance.shape, 3, 'float32'))
            self.l.bn_gamma.assign(np.full(self.l.bn_gamma.shape, 2, 'float32'))       # scale one
        rng = np.random.default_rng(self.seed)
        self.w0 = (rng.integers(-KM, KM + 1, self.l.kernel.shape) / 2. ** KF).astype('float32')
        n = self.w0.size
        self.pos = sorted(rng.permutation(n)[:self.sym])

    def inputs(self, v):
        return dict(ibw=v.dyadic('ibw', (1,) + self.shape, 0, 0, self.wmax), w=v.dyadic('w', (len(self.pos),), -KF, -self.km, self.km))

    def kernel(self, ins):
        """one path per kernel value, so that the sums stay linear in the input widths"""
        o = cst(self.w0).reshape(-1)
        for p, a in zip(self.pos, A(ins['w'])):
            o[p] = core.ctx_concrete(a)
        return o.reshape(self.w0.shape)

    def run(self, ins):
        from .c10 import back
        put(self.src.bw, ins['ibw'])
        put(self.l.kernel, back(self.kernel(ins), None))
        if self.how == 'exact':
            r = self.l.compute_exact_bops
            return dict(returned=r, published=get(self.l.bops))
        self.l(np.zeros((1,) + self.shape, 'float32'), training=False)
        return dict(published=get(self.l.bops))

    def prop(self, ins, outs):
        w = vec(lambda a: table(a, exact_bits if self.how == 'exact' else est_bits), self.kernel(ins))
        s, n = products(self.kind, A(ins['ibw'])[0], w, self.opt)
        if self.kind.startswith('conv'):
            s = div(mul(s, D(self.opt.get('parallel_factor', 1), 0), N), D(n, 0), N)
        r = [('published BOPs are the sum over all multiplications', eq_arr(outs['published'], np.array(s, dtype=object)))]
        if 'returned' in outs:
            r.append(('returned BOPs are the sum over all multiplications', eq_arr(outs['returned'], np.array(s, dtype=object))))
        return r


class Loss(Layer):
    functions = ['HDense.forward / HConv.forward (regularization loss)']

    def inputs(self, v):
        return dict(super().inputs(v), beta=v.dyadic('beta', (), -3, 0, 8))

    def run(self, ins):
        from .c10 import back
        import tensorflow as tf
        put(self.src.bw, ins['ibw'])
        put(self.l.beta, ins['beta'])
        put(self.l.kernel, back(self.kernel(ins), None))

        def f(x):
            self.l(x, training=False)
            return tf.add_n([t for t in self.l.losses])
        return dict(loss=tf_call(f, np.zeros((1,) + self.shape, 'float32')), published=get(self.l.bops))

    def prop(self, ins, outs):
        b = A(ins['beta']).reshape(-1)[0]
        return [('the loss of the layer is beta times its BOPs', eq_arr(outs['loss'], vec(lambda a: mul(a, b, N), A(outs['published']))))]


class Zero(Harness):
    functions = ['HLayerBase.compute_exact_bops']
    bounds = 'HQuantize, HActivation, HAdd with any previously published value'

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        I = tf.keras.layers.Input
        self.l = dict(q=lambda: H.HQuantize(), a=lambda: H.HActivation('relu'), add=lambda: H.HAdd())[self.kind]()
        self.l([I((2,)), I((2,))] if self.kind == 'add' else I((2,)))

    def inputs(self, v):
        return dict(old=v.dyadic('old', (), 0, 0, 1000))

    def run(self, ins):
        put(self.l.bops, ins['old'])
        return dict(r=self.l.compute_exact_bops, p=get(self.l.bops))

    def prop(self, ins, outs):
        return [('layers without multiplications cost nothing', eq_arr(outs['r'], np.array(ZERO, dtype=object))), ('and publish that', eq_arr(outs['p'], np.array(ZERO, dtype=object)))]


class Totals(Harness):
    functions = ['FreeBOPs.on_epoch_end', 'FreeBOPs._bops']
    bounds = 'a model with a nested model (two levels) and five quantized layers with any published BOPs 0..1000'

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        I, M = tf.keras.layers.Input, tf.keras.Model
        z = I((2,))
        a = H.HDense(2)
        m0 = M(z, H.PFlatten()(a(H.HQuantize()(z)))) if self.deep else None
        y = I((2,))
        q, d = H.HQuantize(), H.HDense(2)
        m1 = M(y, d(q(y)))
        x = I((2,))
        e, g = H.HQuantize(), H.HDense(1)
        h = e(x)
        h = tf.keras.layers.ReLU()(m1(h))
        if self.deep:
            u = I((2,))
            f = H.HActivation('relu')
            m2 = M(u, f(m0(u)))
            h = m2(h)
        self.m = M(x, tf.keras.layers.Dense(1)(h))
        self.ls = []

        def walk(m):
            for l in m.layers:
                if isinstance(l, tf.keras.Model):
                    walk(l)
                elif isinstance(l, H.HLayerBase):
                    self.ls.append(l)
        walk(self.m)

    def inputs(self, v):
        return dict(b=v.dyadic('b', (len(self.ls),), 0, 0, 1000))

    def run(self, ins):
        from HGQ import FreeBOPs
        for i, l in enumerate(self.ls):
            put(l.bops, ins['b'][i])
        cb = FreeBOPs()
        cb.set_model(self.m)
        logs = {}
        cb.on_epoch_end(0, logs)
        return dict(t=logs['bops'])

    def prop(self, ins, outs):
        return [('the logged total is the sum over all layers', eq_arr(outs['t'], np.array(total(A(ins['b'])), dtype=object)))]


class Trace(Harness):
    """calibrate and count: the reported total is the sum of what the layers publish, which is right for the calibrated widths"""
    functions = ['trace_minmax (total)', 'CalibratedBOPs.on_epoch_end', 'compute_exact_bops']
    bounds = 'model of two dense layers (optionally inside a nested model); two calibration samples of one feature, multiples of 1/2 with |x| <= 3; concrete weights'
    assumptions = Layer.assumptions

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ.layers.base import ABSBaseLayer
        I, M = tf.keras.layers.Input, tf.keras.Model
        p, k = dict(conf(3, 'all'), init_bw=1), dict(kconf('none'), rnd_strategy=0)
        x = I((1,))
        self.q, self.d, self.e = H.HQuantize(paq_conf=p), H.HDense(2, activation='relu', paq_conf=p, kq_conf=k), H.HDense(1, paq_conf=p, kq_conf=k)
        h = self.q(x)
        if self.nested:
            y = I((1,))
            h = M(y, self.e(self.d(H.HQuantize(paq_conf=p)(y))))(h)
        else:
            h = self.e(self.d(h))
        self.m = M(x, h)
        for l, w in ((self.d, [[1.5, -.75]]), (self.e, [[1.], [.5]])):
            l.kernel.assign(np.array(w, 'float32'))
            l.kq.fbw.assign(np.full(l.kq.fbw.shape, KF, 'float32'))
        self.ls = [l for l in (self.q, self.d, self.e)]
        self.saved = ABSBaseLayer.__dict__['input_bw']

    def inputs(self, v):
        return dict(x=v.dyadic('x', (2, 1), -1, -6, 6))

    def run(self, ins):
        from HGQ import CalibratedBOPs, trace_minmax
        if self.how == 'callback':
            logs = {}
            cb = CalibratedBOPs(ins['x'])
            cb.set_model(self.m)
            cb.on_epoch_end(0, logs)
            r = logs['bops']
        else:
            r = trace_minmax(self.m, ins['x'], verbose=False, bsz=self.bsz)
        outs = dict(total=r)
        for i, l in enumerate(self.ls):
            outs[f'b{i}'] = get(l.bops)
        outs['w0'], outs['w1'] = self.d._inbound_nodes[0].inbound_layers.act_bw_exact, self.d.act_bw_exact
        return outs

    def prop(self, ins, outs):
        s = total(A(outs[f'b{i}']).reshape(-1)[0] for i in range(3))
        w0, w1 = A(outs['w0']).reshape(-1), A(outs['w1']).reshape(-1)
        bits = lambda a: D(exact_bits(int(abs(a) * 2 ** KF)), 0)  # noqa: E731
        d = total(mul(w0[0], bits(w), N) for w in (1.5, -.75))
        e = total(mul(a, bits(w), N) for a, w in zip(w1, (1., .5)))
        return [('the total is the sum over the layers', eq_arr(outs['total'], np.array(s, dtype=object))),
                ('published BOPs use the calibrated widths', b_and(*[core.unb(eq_arr(outs[f'b{i}'], np.array(v, dtype=object))) for i, v in enumerate((ZERO, d, e))]))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    cases = [('conv1', (4, 1), dict(filters=1, kernel_size=2, parallel_factor=3)), ('dense', (2,), dict(units=2)), ('dense', (2, 2), dict(units=1)), ('dense', (2, 2), dict(units=2, parallel_factor=1)), ('dense', (1, 2, 2), dict(units=1)), ('dense_bn', (2,), dict(units=2)),
             ('conv1', (5, 1), dict(filters=1, kernel_size=2)), ('conv1', (4, 1), dict(filters=2, kernel_size=2, strides=2, parallel_factor=2)), ('conv1', (4, 1), dict(filters=1, kernel_size=3, padding='same', parallel_factor=4)), ('conv1', (5, 2), dict(filters=2, kernel_size=2, groups=2, parallel_factor=3)),
             ('conv1', (6, 1), dict(filters=1, kernel_size=2, dilation_rate=2, parallel_factor=3)), ('conv1_bn', (4, 1), dict(filters=1, kernel_size=2, strides=2)), ('conv1', (4, 2), dict(filters=1, kernel_size=1, parallel_factor=3)),
             ('conv2', (3, 3, 1), dict(filters=1, kernel_size=2, parallel_factor=4)), ('conv2', (3, 2, 1), dict(filters=2, kernel_size=(2, 1), padding='same', strides=(2, 1))), ('conv2', (2, 4, 1), dict(filters=1, kernel_size=(1, 2), strides=(1, 2), parallel_factor=2)), ('conv2', (2, 4, 1), dict(filters=1, kernel_size=(2, 2), padding='same', parallel_factor=6))]
    for i, (kind, shape, opt) in enumerate(cases):
        for how in ('exact', 'estimate'):
            hs.append(Layer(f'{kind}{shape}{opt}[{how}]', kind=kind, shape=shape, opt=opt, how=how, beta=0., seed=i, cost=2, sym=2 if T else 1, **(dict(wmax=3) if T else dict(wmax=2, km=3)) if how == 'exact' and kind != 'dense' else {}))
    for i in (1, 7, 14):
        kind, shape, opt = cases[i]
        hs.append(Loss(f'loss {kind}', kind=kind, shape=shape, opt=opt, how='loss', beta=0., seed=i, sym=1))
    hs += [Zero(f'zero[{k}]', kind=k) for k in ('q', 'a', 'add')]
    hs += [Totals(f'totals[{d}]', deep=d) for d in (0, 1)]
    for nested in (0, 1):
        hs.append(Trace(f'trace[{nested}]', nested=nested, how='trace', bsz=2 - nested, cost=4))
        hs.append(Trace(f'callback[{nested}]', nested=nested, how='callback', bsz=2, cost=4))
    return hs
