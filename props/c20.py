import numpy as np

from .oracle import *
from .c05 import on_grid

ZERO, ONE = D(0, 0), D(1, 0)


def group_of(shape, skip):
    """shared dimensions"""
    n = len(shape)
    return dict(all=tuple(range(n)), none=(), except_last=tuple(range(n - 1)), batch=(0,)).get(skip, skip or ())


def high_bit(m, top):
    """number of bits of the non-negative integer m <= top"""
    r = ZERO
    n = 1
    while n <= top:
        r = ite(le(D(n, 0), m), D(n.bit_length(), 0), r)
        n *= 2
    return r


class KernelBits(Harness):
    functions = ['HGQ.get_bits (tensor)', 'HLayerBase.kernel_bw', 'HLayerBase._kernel_bw', 'scale_grad', 'HGQ.get_bits_exact', 'get_arr_bits', 'HLayerBase.kernel_bw_exact', 'HBatchNormBase.fused_kernel']
    bounds = 'kernels of up to 4 weights, values k*2^-2 with the stated |k|; fbw = k*2^-1 in the stated range per group; also scaled by 2^8 and 2^-9'
    sh = 0               # everything scaled by 2^-sh
    assumptions = ['the float32 natural logarithm over log 2 and the float64 base-2 logarithm are correct at and next to powers of two inside the bounds']

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_kq_conf
        kq = dict(get_default_kq_conf(), rnd_strategy=self.strat, skip_dims=self.skip)
        C, a, s = dict(dense=(H.HDense, (self.units,), (self.cin,)), bn=(H.HDenseBatchNorm, (self.units,), (self.cin,)), conv1=(H.HConv1D, (self.units, 2), (3, self.cin)), conv2=(H.HConv2D, (self.units, (1, 2)), (2, 2, self.cin)))[self.kind]
        kw = dict(epsilon=.25) if self.kind == 'bn' else {}
        self.l = l = C(*a, kq_conf=kq, **kw)
        l(tf.keras.layers.Input(s))
        self.gain = 1
        if self.kind == 'bn':
            l.moving_variance.assign(np.full(l.moving_variance.shape, .75))
            l.bn_gamma.assign(np.full(l.bn_gamma.shape, 2.))
            self.gain = 2
        self.kshape, self.fshape = tuple(l.kernel.shape), tuple(l.kq.fbw.shape)

    def inputs(self, v):
        return dict(w=v.dyadic('w', self.kshape, -2 - self.sh, -self.lim, self.lim), fbw=v.dyadic('fbw', self.fshape, -1, *(t + 2 * self.sh for t in self.f)))

    def run(self, ins):
        l = self.l
        put(l.kernel, ins['w'])
        put(l.kq.fbw, ins['fbw'])
        return dict(est=tf_call(lambda: l.kernel_bw), exact=l.kernel_bw_exact)

    def prop(self, ins, outs):
        est, exact = A(outs['est']), A(outs['exact'])
        if est.shape != self.kshape or exact.shape != self.kshape:
            return [('one width per weight', False)]
        f = vec(round_even, A(ins['fbw']))
        mode = 'floor' if self.strat == 'floor' else 'round'
        q = vec(lambda a, b: quant(mul(a, D(self.gain, 0), N), b, mode), A(ins['w']), f)
        m = vec(lambda a, b: mul(absolute(a), pow2(b), N), q, f)           # integers: magnitude on the grid
        g = group_of(self.kshape, self.skip)
        big = np.empty(self.kshape, dtype=object)
        for pos in np.ndindex(*self.kshape):
            r = ZERO
            for o in np.ndindex(*self.kshape):
                if all(a == b or d in g for d, (a, b) in enumerate(zip(pos, o))):
                    r = maximum(r, m[o])
            big[pos] = r
        top = int(self.gain * self.lim / 4 * 2 ** (self.f[1] / 2)) + 2
        return [('at least the exact width', claim_all(lambda e, x: core.unb(le(x, e)), est, exact)),
                ('never negative', claim_all(lambda e: core.unb(le(ZERO, e)), est)),
                ('zero for groups that are entirely zero', claim_all(lambda e, b: b_implies(core.unb(eq(b, ZERO)), core.unb(teq(e, ZERO))), est, big)),
                ('no more than the largest weight of the group needs on the grid', claim_all(lambda e, b: core.unb(le(e, high_bit(b, top))), est, big))]


class ActBits(Harness):
    functions = ['HGQ.get_bits (recorded range)', 'HLayerBase.act_bw', 'HGQ.get_bits_exact (recorded range)', 'HLayerBase.act_bw_exact', 'scale_grad']
    bounds = 'recorded min <= max on the quantizer grid, multiples of 2^-2 with the stated magnitude; fbw = k*2^-1 in the stated range; 1 or 2 bitwidths'
    assumptions = KernelBits.assumptions

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_paq_conf
        p = dict(get_default_paq_conf(), skip_dims=self.skip)
        self.l = dict(quantize=lambda: H.HQuantize(paq_conf=p), relu=lambda: H.HActivation('relu', paq_conf=p), dense=lambda: H.HDense(self.n, paq_conf=p), denserelu=lambda: H.HDense(self.n, activation='relu', paq_conf=p), add=lambda: H.HAdd(paq_conf=p))[self.kind]()
        x = tf.keras.layers.Input((self.n,))
        self.l([x, x] if self.kind == 'add' else x)
        self.relu = 'relu' in self.kind
        self.fshape = tuple(self.l.paq.fbw.shape)

    def inputs(self, v):
        n = self.lim
        return dict(mn=v.dyadic('mn', self.fshape, -2, -n, n), mx=v.dyadic('mx', self.fshape, -2, -n, n), fbw=v.dyadic('fbw', self.fshape, -1, *self.f))

    def assume(self, ins):
        r = []
        for a, b, f in zip(A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1), A(ins['fbw']).reshape(-1)):
            fr = round_even(f)
            r += [le(a, b), on_grid(a, fr), on_grid(b, fr)]
        return r

    def run(self, ins):
        l = self.l
        put(l.paq.fbw, ins['fbw'])
        put(l.paq._min, ins['mn'])
        put(l.paq._max, ins['mx'])
        return dict(est=tf_call(lambda: l.act_bw), exact=l.act_bw_exact)

    def prop(self, ins, outs):
        est, exact = A(outs['est']), A(outs['exact'])
        if est.shape != (1, self.n) or exact.shape != (1, self.n):
            return [('one width per output', False)]
        mn, mx = (np.broadcast_to(A(ins[k]), (1, self.n)) for k in ('mn', 'mx'))
        if self.relu:
            zero = vec(lambda b: core.unb(le(b, ZERO)), mx)
        else:
            zero = vec(lambda a, b: b_and(core.unb(eq(a, ZERO)), core.unb(eq(b, ZERO))), mn, mx)
        return [('at least the exact width', claim_all(lambda e, x: core.unb(le(x, e)), est, exact)),
                ('never negative', claim_all(lambda e: core.unb(le(ZERO, e)), est)),
                ('at most one bit more than the exact width', claim_all(lambda e, x: core.unb(le(e, add(x, ONE, N))), est, exact)),
                ('zero where nothing but zero comes out', claim_all(lambda e, z: b_implies(z, core.unb(teq(e, ZERO))), est, zero))]


class ChainBits(Harness):
    """estimate and exact width after recording the same values"""
    functions = ActBits.functions + ['HQuantize.call', 'HActivation.call', 'HGQ.forward (recording)']
    bounds = 'x = k*2^-2, |x| <= 2, two rows of two, per element or shared bitwidths in the stated range'
    assumptions = KernelBits.assumptions

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_paq_conf
        p = dict(get_default_paq_conf(), skip_dims=self.skip, rnd_strategy=self.strat)
        self.l = H.HActivation('relu', paq_conf=p) if self.relu else H.HQuantize(paq_conf=p)
        self.l(tf.keras.layers.Input((2,)))

    def inputs(self, v):
        return dict(x=v.dyadic('x', (2, 2), -2, -self.lim, self.lim), fbw=v.dyadic('fbw', tuple(self.l.paq.fbw.shape), -1, *self.f))

    def run(self, ins):
        l = self.l
        put(l.paq.fbw, ins['fbw'])
        l.reset_minmax()
        l(ins['x'], training=False, record_minmax=True)
        return dict(est=tf_call(lambda: l.act_bw), exact=l.act_bw_exact)

    def prop(self, ins, outs):
        est, exact = A(outs['est']), A(outs['exact'])
        if est.shape != (1, 2) or exact.shape != (1, 2):
            return [('one width per output', False)]
        return [('at least the exact width', claim_all(lambda e, x: core.unb(le(x, e)), est, exact)), ('at most one bit more', claim_all(lambda e, x: core.unb(le(e, add(x, ONE, N))), est, exact))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for strat in ('standard_round', 'floor'):
        for skip in (None, 'all'):
            hs.append(KernelBits(f'dense[{strat},{skip}]', kind='dense', strat=strat, skip=skip, cin=1 if skip is None else 2, units=1, lim=24 if skip is None else 6, f=(-3, 5) if skip is None else (-1, 3)))
    for skip in ((0,), (1,), 'except_last', 'none'):
        hs.append(KernelBits(f'dense2[{skip}]', kind='dense', strat='standard_round', skip=skip, cin=2, units=1 if skip == 'none' else 2, lim=2, f=(1, 2)))
    for sh in (-8, 9):
        hs.append(KernelBits(f'dense[scaled {sh}]', kind='dense', strat='standard_round', skip='all', cin=2, units=1, lim=5, f=(-1, 3), sh=sh))
    hs.append(KernelBits('bn', kind='bn', strat='standard_round', skip='all', cin=2, units=1, lim=4, f=(0, 2)))
    hs.append(KernelBits('conv1', kind='conv1', strat='floor', skip='except_last', cin=1, units=1, lim=5, f=(0, 2)))
    hs.append(KernelBits('conv2', kind='conv2', strat='standard_round', skip=(0, 1, 2), cin=1, units=1, lim=5, f=(0, 2)))
    for kind in ('quantize', 'relu', 'dense', 'denserelu', 'add'):
        hs.append(ActBits(f'{kind}[shared]', kind=kind, skip='all', n=2, lim=48, f=(-4, 4)))
        hs.append(ActBits(f'{kind}[each]', kind=kind, skip=(0,), n=2, lim=4, f=(2, 3)))
    for relu in (False, True):
        hs.append(ChainBits(f'recorded[{relu}]', relu=relu, skip='all', strat='standard_round', lim=16, f=(-2, 4)))
        hs.append(ChainBits(f'recorded each[{relu}]', relu=relu, skip='batch', strat='floor', lim=3, f=(2, 3)))
    if T:
        hs.append(KernelBits('T dense', kind='dense', strat='standard_round', skip='all', cin=2, units=1, lim=16, f=(-3, 5)))
        hs.append(KernelBits('T dense each', kind='dense', strat='floor', skip=None, cin=1, units=1, lim=256, f=(-6, 8)))
        for kind in ('quantize', 'relu'):
            hs.append(ActBits(f'T {kind}', kind=kind, skip='all', n=1, lim=1024, f=(-8, 4)))
            hs.append(ActBits(f'T {kind} each', kind=kind, skip=(0,), n=2, lim=12, f=(0, 4)))
    return hs
