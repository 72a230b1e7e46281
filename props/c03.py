import numpy as np

from .oracle import *

LN2 = from_fraction(Fraction(float(np.float32(np.log(2)))))
REALS = ['claims over the reals: floating-point rounding of the surrogate term (delta+p)-p is not modelled; ln(2) is the float32 constant of the code']


def ssum(xs):
    t = D(0, 0)
    for x in xs:
        t = add(t, x, N)
    return t


def groups(shape, fshape):
    """flat bitwidth index -> list of value indices sharing it (numpy broadcasting)"""
    idx = np.broadcast_to(np.arange(int(np.prod(fshape))).reshape(fshape), shape)
    return [[tuple(int(t) for t in i) for i in np.argwhere(idx == g)] for g in range(int(np.prod(fshape)))]


class Grad(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.__call__ and HGQ.forward with their TensorFlow gradient functions (training=True)']
    bounds = 'x = k*2^-5, |x| <= 4; fbw = k*2^-2 in the stated range; upstream gradient k*2^-2 in [-2,2]; shapes up to (2,2,1); also scaled by 2^8'
    sh = 0               # everything scaled by 2^-sh
    assumptions = REALS
    float_mode = 'real'
    tol = 2 ** -10

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., self.skip, rnd_strategy=self.strat, exact_q_value=self.exact, bw_clip=self.clip, minmax_record=False)
        self.q.build(self.shape)
        self.rand_used = self.strat in (1, 2)

    def inputs(self, v):
        return dict(x=v.dyadic('x', self.shape, -5 - self.sh, -128, 128), w=v.dyadic('w', self.shape, -2, -8, 8), fbw=v.dyadic('fbw', tuple(self.q.fbw.shape), self.fe, *(t + (self.sh << -self.fe) for t in self.f)))

    def run(self, ins):
        import tensorflow as tf
        put(self.q.fbw, ins['fbw'])

        def g(x, w):
            with tf.GradientTape() as t:
                t.watch(x)
                y = self.q(x, training=True)
                loss = tf.reduce_sum(y * w)
            gx, gf = t.gradient(loss, [x, self.q.fbw])
            return y, gx, tf.zeros_like(self.q.fbw) if gf is None else gf
        y, gx, gf = tf_call(g, ins['x'], ins['w'], key=('c03', self.name))
        return dict(y=y, gx=gx, gf=gf)

    def prop(self, ins, outs):
        x, w, y = A(ins['x']), A(ins['w']), A(outs['y'])
        want = [mul(neg(LN2), ssum(mul(w[i], sub(y[i], x[i], N), N) for i in g), N) for g in groups(self.shape, tuple(self.q.fbw.shape))]
        gf = A(outs['gf'])
        return [('gradient with respect to the input is one', eq_arr(outs['gx'], w)),
                ('gradient with respect to the bitwidth is -ln2 times the summed error', gf.shape == tuple(self.q.fbw.shape) and claim_all(teq, gf.reshape(-1), np.array(want, dtype=object)))]


class BiasGrad(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.bias_forward with its TensorFlow gradient function (training=True)']
    bounds = 'bias = k*2^-5, |bias| <= 4; fbw = k*2^-1 in [-1,2]; upstream gradient k*2^-2 in [-2,2]; 2 channels with 2 bitwidths each'
    assumptions = REALS
    float_mode = 'real'
    tol = 2 ** -10

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., (0,), rnd_strategy=self.strat, minmax_record=False)
        self.q.build((1, 2, 2))
        self.rand_used = self.strat in (1, 2)

    def inputs(self, v):
        return dict(b=v.dyadic('b', (2,), -5, -128, 128), w=v.dyadic('w', (2,), -2, -8, 8), fbw=v.dyadic('fbw', (1, 2, 2), -1, -2, 4))

    def run(self, ins):
        import tensorflow as tf
        put(self.q.fbw, ins['fbw'])

        def g(x, w):
            with tf.GradientTape() as t:
                t.watch(x)
                y = self.q.bias_forward(x, True, self.loc)
                loss = tf.reduce_sum(y * w)
            gx, gf = t.gradient(loss, [x, self.q.fbw])
            return y, gx, tf.zeros_like(self.q.fbw) if gf is None else gf
        y, gx, gf = tf_call(g, ins['b'], ins['w'], key=('c03', self.name))
        return dict(y=y, gx=gx, gf=gf)

    def prop(self, ins, outs):
        x, w, y = A(ins['b']), A(ins['w']), A(outs['y'])
        f = np.moveaxis(A(ins['fbw']), self.loc, 0).reshape(2, -1)
        gf = np.moveaxis(A(outs['gf']), self.loc, 0).reshape(2, -1)
        tot, zero = [], []
        for c in range(2):
            m = maximum(f[c, 0], f[c, 1])
            tot.append(teq(ssum(gf[c]), mul(neg(LN2), mul(w[c], sub(y[c], x[c], N), N), N)))
            for j in range(2):
                zero.append(b_implies(lt(f[c, j], m), teq(gf[c, j], D(0, 0))))
        return [('gradient with respect to the bias is one', eq_arr(outs['gx'], w)),
                ('the channel receives -ln2 times its error', b_and(*[core.unb(t) for t in tot])),
                ('coarser bitwidths of the channel receive nothing', b_and(*[core.unb(t) for t in zero]))]


class ActBw(Harness):
    cost = 5
    functions = ['HLayerBase.act_bw', 'HGQ.get_bits (recorded range)', 'scale_grad']
    bounds = 'recorded min/max = k*2^-2 in [-8,8], min <= max; fbw = k*2^-2 in [-1,3]'
    assumptions = ['the float32 logarithm is exact at the powers of two inside the bounds']
    float_mode = 'real'
    tol = 2 ** -10

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        from HGQ.layers.misc import HActivation
        conf = H.get_default_paq_conf()
        conf.update(skip_dims=self.skip)
        self.l = HActivation('relu', paq_conf=conf) if self.relu else H.HQuantize(paq_conf=conf)
        self.l(tf.keras.layers.Input(self.shape[1:]))
        self.q = self.l.paq

    def inputs(self, v):
        s = tuple(self.q.fbw.shape)
        return dict(mn=v.dyadic('mn', s, -2, -32, 32), mx=v.dyadic('mx', s, -2, -32, 32), fbw=v.dyadic('fbw', s, -2, -4, 12))

    def assume(self, ins):
        return [le(a, b) for a, b in zip(A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1))]

    def run(self, ins):
        import tensorflow as tf
        put(self.q.fbw, ins['fbw'])
        put(self.q._min, ins['mn'])
        put(self.q._max, ins['mx'])

        def g():
            with tf.GradientTape() as t:
                bw = self.l.act_bw
                loss = tf.reduce_sum(bw)
            gf = t.gradient(loss, self.q.fbw)
            return bw, tf.zeros_like(self.q.fbw) if gf is None else gf
        bw, gf = tf_call(g, key=('c03', self.name))
        return dict(bw=bw, gf=gf)

    def prop(self, ins, outs):
        n = float(np.prod(self.shape)) / float(np.prod(self.q.fbw.shape))
        bw, gf = A(outs['bw']), A(outs['gf'])
        cl, val = [], []
        fs = A(ins['fbw']).reshape(-1)
        mn, mx = A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1)
        d = from_fraction(Fraction(float(n ** .5)))      # sum over the n sharing values of 1/sqrt(n)
        for gi, g in enumerate(groups(self.shape, tuple(self.q.fbw.shape))):
            b = bw[g[0]]
            for i in g[1:]:
                val.append(core.unb(teq(bw[i], b)))
            cl.append(b_implies(lt(D(0, 0), b), le(absolute(sub(gf.reshape(-1)[gi], d, N)), from_fraction(Fraction(1, 1000)))))
            # damping never changes the value: it is the number of bits of the largest recorded magnitude
            f = round_even(fs[gi])
            hi = maximum(mx[gi], D(0, 0)) if self.relu else maximum(absolute(mn[gi]), absolute(mx[gi]))
            s = D(0, 0) if self.relu else ite(lt(mn[gi], D(0, 0)), D(1, 0), D(0, 0))
            i_bits = sub(sub(b, f, N), s, N)
            inside = b_and(core.unb(lt(hi, pow2(i_bits))), core.unb(le(pow2(sub(i_bits, D(1, 0), N)), hi)))
            val.append(b_implies(lt(D(0, 0), b), inside))
            val.append(b_implies(eq(hi, D(0, 0)), teq(b, D(0, 0))))
        return [('unit gradient damped by the inverse square root of the sharing', b_and(*[core.unb(c) for c in cl])),
                ('damping does not change the value', b_and(*[core.unb(v) for v in val]))]


class KernelBw(Harness):
    cost = 9
    functions = ['HLayerBase.kernel_bw', 'HLayerBase._kernel_bw', 'HGQ.get_bits (tensor)', 'scale_grad']
    bounds = 'kernel = k*2^-1 with |k| <= 3 and fbw = k*2^-1 in [0,1] for 2x2 kernels; kernel = k*2^-2 in [-3,3], fbw in [0,2] for 2x1 kernels'
    assumptions = ActBw.assumptions
    float_mode = 'real'
    tol = 2 ** -10

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        conf = H.get_default_kq_conf()
        conf.update(skip_dims=self.skip)
        self.l = H.HDense(self.kshape[1], kq_conf=conf)
        self.l.build((None, self.kshape[0]))
        self.q = self.l.kq

    def inputs(self, v):
        e, n, f = self.rng
        return dict(k=v.dyadic('k', self.kshape, e, -n, n), fbw=v.dyadic('fbw', tuple(self.q.fbw.shape), -1, *f))

    def run(self, ins):
        import tensorflow as tf
        put(self.q.fbw, ins['fbw'])
        put(self.l.kernel, ins['k'])

        def g():
            with tf.GradientTape() as t:
                bw = self.l.kernel_bw if self.how == 'prop' else getattr(self.l, '_kernel_bw', lambda q: self.l.kernel_bw)(self.l.kq(self.l.kernel, training=True))
                loss = tf.reduce_sum(bw)
            gf = t.gradient(loss, self.q.fbw)
            return bw, tf.zeros_like(self.q.fbw) if gf is None else gf
        bw, gf = tf_call(g, key=('c03', self.name))
        return dict(bw=bw, gf=gf)

    def prop(self, ins, outs):
        n = float(np.prod(self.kshape)) / float(np.prod(self.q.fbw.shape))
        bw, gf = A(outs['bw']), A(outs['gf'])
        k = A(ins['k'])
        fs = A(ins['fbw']).reshape(-1)
        d = from_fraction(Fraction(float(n ** .5)))
        cl, val = [], []
        if bw.shape != self.kshape or gf.shape != tuple(self.q.fbw.shape):
            return [('bitwidths have the shape of the kernel', False)]
        for gi, g in enumerate(groups(self.kshape, tuple(self.q.fbw.shape))):
            b = bw[g[0]]
            for i in g[1:]:
                val.append(core.unb(teq(bw[i], b)))
            cl.append(b_implies(lt(D(0, 0), b), le(absolute(sub(gf.reshape(-1)[gi], d, N)), from_fraction(Fraction(1, 1000)))))
            f = round_even(fs[gi])
            hi = D(0, 0)
            for i in g:
                hi = maximum(hi, absolute(quant(k[i], f, 'round')))
            i_bits = sub(b, f, N)
            val.append(b_implies(lt(D(0, 0), b), b_and(core.unb(lt(hi, pow2(i_bits))), core.unb(le(pow2(sub(i_bits, D(1, 0), N)), hi)))))
            val.append(b_implies(eq(hi, D(0, 0)), teq(b, D(0, 0))))
        return [('unit gradient damped by the inverse square root of the sharing', b_and(*[core.unb(c) for c in cl])),
                ('damping does not change the value', b_and(*[core.unb(v) for v in val]))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for strat in (0, 1, 2, 3):
        hs.append(Grad(f'grad[{strat}]', shape=(2, 2), skip=(0,), strat=strat, exact=True, clip=(-2, 2), fe=-2, f=(-10, 10)))
        hs.append(Grad(f'grad[{strat},all,noclip]', shape=(2, 2), skip='all', strat=strat, exact=True, clip=None, fe=-2, f=(-12, 16)))
        hs.append(Grad(f'grad[{strat},none]', shape=(1, 2), skip='none', strat=strat, exact=True, clip=(-23, 23), fe=-2, f=(-4, 8)))
        hs.append(Grad(f'grad[{strat},except_1st]', shape=(1, 2, 2), skip='except_1st', strat=strat, exact=True, clip=(-23, 23), fe=-2, f=(-4, 8)))
        hs.append(Grad(f'grad[{strat},surrogate]', shape=(2, 1), skip=(0,), strat=strat, exact=False, clip=(-23, 23), fe=0, f=(-2, 3)))
        hs.append(Grad(f'grad[{strat},scaled]', shape=(1, 2), skip=(0,), strat=strat, exact=True, clip=(-23, 23), fe=-2, f=(-4, 8), sh=-8))
        hs.append(BiasGrad(f'bias[{strat}]', strat=strat, loc=-1))
    hs.append(BiasGrad('bias[0,1st]', strat=0, loc=1))
    for skip in ((0,), 'all', 'except_last', 'except_1st', (0, 1)):
        for relu in (False, True):
            hs.append(ActBw(f'act_bw[{skip},{"relu" if relu else "quantize"}]', shape=(1, 2, 2) if skip == 'all' else (1, 2, 1) if skip != 'except_last' else (1, 4, 2), skip=skip, relu=relu))
    for how in ('prop', 'call'):
        for skip in (None, 'all', (0,), (1,)):
            hs.append(KernelBw(f'kernel_bw[{skip},{how}]', kshape=(2, 1) if skip is None else (2, 2), skip=skip, how=how, rng=(-2, 12, (0, 4)) if skip is None else (-1, 3, (0, 2))))
    if T:
        for strat in (0, 1, 2, 3):
            hs.append(Grad(f'T grad[{strat}]', shape=(3, 2), skip=(0,), strat=strat, exact=True, clip=(-4, 5), fe=-2, f=(-20, 24)))
        hs.append(KernelBw('T kernel_bw[none]', kshape=(2, 2), skip=None, how='call', rng=(-2, 16, (0, 4))))
    return hs
