import numpy as np

from .oracle import *


def claims(x, f, strat, y, u):
    """Per element training-time rounding rule; f is the integer number of fractional bits."""
    out = []
    ones = lambda t: t
    s = vec(pow2, f)
    lo = vec(lambda a, t: div(floor(mul(a, t, N)), t, N), x, s)
    step = vec(lambda t: div(D(1, 0), t, N), s)
    if strat in (0, 3):
        want = vec(lambda a, b: quant(a, b, STRATS[strat]), x, f)
        out.append(('training value equals inference value', eq_arr(y, want)))
    elif strat == 1:
        hi = vec(lambda a, b: add(a, b, N), lo, step)
        frac = vec(lambda a, b, t: mul(sub(a, b, N), t, N), x, lo, s)
        out.append(('one of the two enclosing grid points', claim_all(lambda a, b, c: b_or(teq(a, b), teq(a, c)), A(y), lo, hi)))
        out.append(('grid values never move', claim_all(lambda a, b, c: b_implies(eq(a, b), teq(c, a)), x, lo, A(y))))
        if u is not None:
            out.append(('upper point exactly when the draw is below the remainder',
                        claim_all(lambda a, b, c, uu, fr: teq(a, ite(lt(uu, fr), c, b)), A(y), lo, hi, u, frac)))
    else:
        half = vec(lambda t: mul(t, HALF, N), step)
        err = vec(lambda a, b: absolute(sub(a, b, N)), A(y), x)
        tolz = from_fraction(core.TOL)
        out.append(('perturbed by at most half a step', claim_all(lambda e, h: le(e, add(h, tolz, N)), err, half)))
        out.append(('within half a step of zero goes to zero', claim_all(lambda a, h, b: b_implies(le(absolute(a), h), teq(b, D(0, 0))), x, half, A(y))))
    return out


class Train(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.__call__', 'HGQ.forward (training=True)', 'q_round']
    bounds = 'x = k*2^-6, |x| <= 4; fbw = k*2^-2 in the stated range; uniform draws k*2^-10 in [0,1); shapes up to (2,2); also scaled by 2^10'
    sh = 0               # everything scaled by 2^-sh
    assumptions = ['claims over the reals: the surrogate-gradient term (delta+p)-p is computed without rounding']
    float_mode = 'real'
    tol = 2 ** -12

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., self.skip, rnd_strategy=self.strat, exact_q_value=self.exact, bw_clip=self.clip, minmax_record=self.rec)
        self.q.build(self.shape)
        self.rand_used = self.q.rnd_strategy in (1, 2)

    def inputs(self, v):
        return dict(x=v.dyadic('x', self.shape, -6 - self.sh, -256, 256), fbw=v.dyadic('fbw', tuple(self.q.fbw.shape), self.fe, *(t + (self.sh << -self.fe) for t in self.f)))

    def run(self, ins):
        put(self.q.fbw, ins['fbw'])
        if self.rec:
            return dict(y=self.q(ins['x'], training=True, record_minmax=True), u=draws())
        y = self.q(ins['x'], training=True)
        return dict(y=y, u=draws())

    def prop(self, ins, outs):
        x = A(ins['x'])
        f = vec(lambda t: frac_bits(t, self.clip), A(ins['fbw']))
        f = np.broadcast_to(f, x.shape)
        u = outs['u']
        u = u.reshape(x.shape) if u.size == x.size else None
        return claims(x, f, self.q.rnd_strategy, outs['y'], u)


class BiasTrain(Harness):
    functions = ['HGQ.quantizer.quantizer.HGQ.bias_forward (training=True)', 'q_round']
    bounds = 'bias = k*2^-6, |bias| <= 4; fbw = k*2^-1 in [-1.5, 2.5]; up to 4 bitwidths per channel'
    assumptions = Train.assumptions
    float_mode = 'real'
    tol = 2 ** -12

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., (0,), rnd_strategy=self.strat, minmax_record=False)
        self.q.build(self.qshape)
        self.rand_used = self.q.rnd_strategy in (1, 2)

    def inputs(self, v):
        n = self.q.fbw.shape[self.loc]
        return dict(b=v.dyadic('b', (n,), -6, -256, 256), fbw=v.dyadic('fbw', tuple(self.q.fbw.shape), -1, -3, 5))

    def run(self, ins):
        put(self.q.fbw, ins['fbw'])
        y = self.q.bias_forward(ins['b'], True, self.loc)
        return dict(y=y, u=draws())

    def prop(self, ins, outs):
        f = np.moveaxis(A(ins['fbw']), self.loc, 0)
        fs = np.empty(f.shape[0], dtype=object)
        for i, row in enumerate(f.reshape(f.shape[0], -1)):
            m = row[0]
            for t in row[1:]:
                m = maximum(m, t)
            fs[i] = round_even(m)
        x = A(ins['b'])
        u = outs['u']
        return claims(x, fs, self.q.rnd_strategy, outs['y'], u.reshape(x.shape) if u.size == x.size else None)


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for strat in (0, 1, 2, 3):
        hs.append(Train(f'train[{strat}]', shape=(2, 2), skip=(0,), strat=strat, exact=True, clip=(-2, 3), fe=-2, f=(-12, 16), rec=False))
        hs.append(Train(f'train[{strat},all]', shape=(2, 2), skip='all', strat=strat, exact=True, clip=None, fe=-2, f=(-16, 20), rec=False))
        hs.append(Train(f'train[{strat},none,record]', shape=(1, 2), skip='none', strat=strat, exact=True, clip=(-23, 23), fe=-2, f=(-4, 12), rec=True))
        hs.append(Train(f'train[{strat},surrogate,integer fbw]', shape=(1, 2), skip=(0,), strat=strat, exact=False, clip=(-23, 23), fe=0, f=(-2, 3), rec=False))
        hs.append(Train(f'train[{strat},scaled]', shape=(1, 2), skip=(0,), strat=strat, exact=True, clip=(-23, 23), fe=-2, f=(-8, 12), rec=False, sh=-10))
        hs.append(BiasTrain(f'bias[{strat}]', qshape=(1, 2, 2), strat=strat, loc=-1))
    for strat in ('standard_round', 'stochastic_round', 'fast_uniform_noise_injection', 'floor'):
        hs.append(Train(f'train[{strat}]', shape=(1, 2), skip='all', strat=strat, exact=True, clip=(-1, 2), fe=-2, f=(-12, 12), rec=False))
        hs.append(BiasTrain(f'bias[{strat},1st]', qshape=(1, 2, 2), strat=strat, loc=1))
    if T:
        for strat in (0, 1, 2, 3):
            hs.append(Train(f'T train[{strat}]', shape=(2, 3), skip=(0,), strat=strat, exact=True, clip=(-4, 5), fe=-2, f=(-24, 24), rec=False))
    return hs
