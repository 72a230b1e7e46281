import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def on_grid(x, f):
    t = mul(x, pow2(f), N)
    return eq(floor(t), t)


def type_claims(mn, mx, k, i, f, fr, pos_only):
    """claims for one element: (k,i,f) derived for the recorded range [mn, mx] on the grid 2^-fr"""
    if pos_only:
        mn, mx = ZERO, maximum(mx, ZERO)
        neg_ = False
    else:
        neg_ = core.unb(lt(mn, ZERO))
    zero = b_and(core.unb(eq(mn, ZERO)), core.unb(eq(mx, ZERO)))
    bits = add(add(k, i, N), f, N)
    hold = b_and(core.unb(le(mx, sub(pow2(i), pow2(neg(f)), N))), core.unb(le(neg(mul(k, pow2(i), N)), mn)))
    i1 = sub(i, ONE, N)
    fit1 = b_and(core.unb(le(mx, sub(pow2(i1), pow2(neg(f)), N))), core.unb(le(neg(mul(k, pow2(i1), N)), mn)), core.unb(le(ZERO, add(i1, f, N))))
    return [('an all-zero range gets zero bits, others at least one', b_and(b_implies(zero, b_and(core.unb(teq(k, ZERO)), core.unb(teq(i, ZERO)), core.unb(teq(f, ZERO)))),
                                                                             b_implies(b_not(zero), core.unb(lt(ZERO, bits))))),
            ('sign bit exactly when a negative value was recorded', b_and(b_implies(neg_, core.unb(teq(k, ONE))), b_implies(b_not(neg_), core.unb(teq(k, ZERO))))),
            ('fractional bits are those of the grid', b_implies(b_not(zero), core.unb(teq(f, fr)))),
            ('every recorded value fits', b_implies(b_not(zero), hold)),
            ('integer bits are minimal', b_implies(b_not(zero), b_not(fit1)))]


def merge(lists):
    r = {}
    for l in lists:
        for n, b in l:
            r.setdefault(n, []).append(core.unb(b))
    return [(n, b_and(*bs)) for n, bs in r.items()]


class Bits(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.get_bits_exact (recorded range)']
    bounds = 'recorded min <= max on the quantizer grid, multiples of 2^-3 with |.| <= 64, of 2^12 up to 2^18 and of 2^-16 up to 2^-10; fbw = k*2^-1 in the stated range; up to 2 elements'
    assumptions = ['the float32 base-2 logarithm is correct at and next to powers of two inside the bounds']
    e = -3

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., (0,), minmax_record=True)
        self.q.build((2,) + self.shape)
        self.fshape = tuple(self.q.fbw.shape)

    def inputs(self, v):
        n, e = self.lim, self.e
        return dict(mn=v.dyadic('mn', self.fshape, e, -n, n), mx=v.dyadic('mx', self.fshape, e, -n, n), fbw=v.dyadic('fbw', self.fshape, -1, *self.f))

    def assume(self, ins):
        r = []
        for a, b, f in zip(A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1), A(ins['fbw']).reshape(-1)):
            fr = round_even(f)
            r += [le(a, b), on_grid(a, fr), on_grid(b, fr)]
        return r

    def run(self, ins):
        put(self.q.fbw, ins['fbw'])
        put(self.q._min, ins['mn'])
        put(self.q._max, ins['mx'])
        k, i, f = self.q.get_bits_exact(pos_only=self.pos)
        return dict(k=k, i=i, f=f)

    def prop(self, ins, outs):
        k, i, f = A(outs['k']), A(outs['i']), A(outs['f'])
        if not (k.shape == i.shape == f.shape == self.fshape):
            return [('one type per element', False)]
        return merge(type_claims(*[t.reshape(-1)[j] for t in (A(ins['mn']), A(ins['mx']), k, i, f)], round_even(A(ins['fbw']).reshape(-1)[j]), self.pos) for j in range(k.size))


class Unrecorded(Harness):
    functions = ['HGQ.get_bits_exact', 'HGQ.minmax_reg_reset', 'HGQ.init_minmax', 'HLayerBase.reset_minmax']
    bounds = 'one or all of two elements never recorded (fresh quantizer, after a reset, partially recorded); fbw = k*2^-1 in [-4,4], the recorded element any multiple of 2^-2 in [-8,8]'

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., (0,), minmax_record=True)
        self.q.build((1, 2))

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1, 2), -2, -32, 32), fbw=v.dyadic('fbw', (1, 2), -1, -4, 4))

    def run(self, ins):
        q = self.q
        put(q.fbw, ins['fbw'])
        q.minmax_reg_reset()
        if self.how == 'reset after recording':
            q(ins['x'], training=False, record_minmax=True)
            q.minmax_reg_reset()
        elif self.how == 'not recording':
            q(ins['x'], training=False)
        try:
            q.get_bits_exact(pos_only=self.pos)
        except AssertionError:
            return dict(refused=np.bool_(True))
        return dict(refused=np.bool_(False))

    def prop(self, ins, outs):
        return [('a range that was never recorded is refused', bool(outs['refused']))]


class Chain(Harness):
    """Record through the layer, then ask for the type: every value produced while recording fits."""
    functions = ['HQuantize.call', 'HActivation.call', 'HLayerBase.act_bw_exact', 'HGQ.get_bits_exact']
    bounds = 'x = k*2^-3, |x| <= 8, fbw = k*2^-1 in [-1,2] (shared bitwidth), |x| <= 0.5, fbw in [1,1.5] (per element); 2 rows of 2'
    assumptions = Bits.assumptions

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        from HGQ.layers.misc import HActivation
        conf = dict(H.get_default_paq_conf(), rnd_strategy=self.strat, skip_dims=self.skip)
        self.l = HActivation('relu', paq_conf=conf) if self.relu else H.HQuantize(paq_conf=conf)
        self.l(tf.keras.layers.Input((2,)))
        self.fshape = tuple(self.l.paq.fbw.shape)

    def inputs(self, v):
        return dict(x=v.dyadic('x', (2, 2), -3, -self.lim, self.lim), fbw=v.dyadic('fbw', self.fshape, -1, *self.f))

    def run(self, ins):
        l = self.l
        put(l.paq.fbw, ins['fbw'])
        l.reset_minmax()
        y = l(ins['x'], training=False, record_minmax=True)
        k, i, f = l.paq.get_bits_exact(pos_only=self.relu)
        return dict(y=y, k=k, i=i, f=f, bw=l.act_bw_exact)

    def prop(self, ins, outs):
        y, k, i, f, bw = [A(outs[n]) for n in ('y', 'k', 'i', 'f', 'bw')]
        if bw.shape != (1, 2):
            return [('bitwidths have the shape of the output', False)]
        tot = vec(lambda a, b, c: add(add(a, b, N), c, N), k, i, f)
        fit = claim_all(lambda a, kk, ii, ff: b_or(b_and(core.unb(teq(add(add(kk, ii, N), ff, N), ZERO)), core.unb(teq(a, ZERO))),
                                                   b_and(core.unb(le(a, sub(pow2(ii), pow2(neg(ff)), N))), core.unb(le(neg(mul(kk, pow2(ii), N)), a)), core.unb(on_grid(a, ff)))), y, k, i, f)
        return [('every value produced while recording is representable', fit), ('reported width is the number of bits of the type', eq_arr(bw, np.broadcast_to(tot, (1, 2)).copy()))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for pos in (False, True):
        p = 'pos' if pos else 'full'
        hs.append(Bits(f'bits[{p},f>=0]', shape=(1,), lim=512, f=(-1, 6), pos=pos))
        hs.append(Bits(f'bits[{p},f<0]', shape=(1,), lim=512, f=(-8, 0), pos=pos))
        hs.append(Bits(f'bits[{p},large]', shape=(1,), lim=64, e=12, f=(-24, -16) if not T else (-24, 4), pos=pos))
        hs.append(Bits(f'bits[{p},small]', shape=(1,), lim=64, e=-16, f=(24, 32), pos=pos))
        hs.append(Bits(f'bits[{p},pair]', shape=(2,), lim=8, f=(2, 3), cost=3, pos=pos))
        for how in ('fresh', 'reset after recording', 'not recording'):
            hs.append(Unrecorded(f'unrecorded[{how},{p}]', how=how, pos=pos))
    for relu in (False, True):
        for strat, skip in (('floor', 'all'), ('standard_round', 'batch'), ('standard_round', 'all')):
            hs.append(Chain(f'chain[{"relu" if relu else "quantize"},{strat},{skip}]', relu=relu, strat=strat, skip=skip, cost=5, lim=64 if skip == 'all' else 4, f=(-2, 4) if skip == 'all' else (2, 3)))
    if T:
        for pos in (False, True):
            hs.append(Bits(f'T bits[{pos},wide]', shape=(1,), lim=8192, f=(-8, 6), pos=pos))
            hs.append(Chain(f'T chain[{pos}]', relu=pos, strat='standard_round', skip='batch', lim=64, f=(-2, 4)))
        hs.append(Bits(f'T bits[{pos},pair]', shape=(2,), lim=64, f=(-2, 6), pos=pos))
    return hs
