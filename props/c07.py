import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)
RNDS = ['TRN', 'RND', 'RND_CONV', 'TRN_ZERO', 'RND_ZERO', 'RND_MIN_INF', 'RND_INF']
SATS = ['WRAP', 'SAT', 'SAT_ZERO', 'SAT_SYM', 'WRAP_SM']


def rnd(x, mode):
    """reference rounding of ap_fixed to an integer"""
    up = floor(add(x, HALF, N))                          # nearest, ties to plus infinity
    dn = neg(floor(add(neg(x), HALF, N)))                # nearest, ties to minus infinity
    nonneg = le(ZERO, x)
    if mode == 'TRN':
        return floor(x)
    if mode == 'TRN_ZERO':
        return ite(nonneg, floor(x), neg(floor(neg(x))))
    if mode == 'RND':
        return up
    if mode == 'RND_MIN_INF':
        return dn
    if mode == 'RND_ZERO':
        return ite(nonneg, dn, up)
    if mode == 'RND_INF':
        return ite(nonneg, up, dn)
    if mode == 'RND_CONV':
        half = div(up, TWO, N)
        return ite(eq(floor(half), half), up, dn)      # at a tie up and dn differ and the even one is wanted; otherwise they agree
    raise ValueError(mode)


def imod(a, n):
    return sub(a, mul(n, floor(div(a, n, N)), N), N)


def sat(v, k, b, mode):
    """reference overflow handling of the integer v in b bits (k sign bits); k, b concrete after forking"""
    hi = sub(pow2(sub(b, k, N)), ONE, N)
    lo = neg(mul(add(hi, ONE, N), k, N))
    n = pow2(b)
    if mode == 'SAT':
        return clip(v, lo, hi)
    if mode == 'SAT_SYM':
        return clip(v, neg(mul(hi, k, N)), hi)
    inside = b_and(core.unb(le(lo, v)), core.unb(le(v, hi)))
    if mode == 'SAT_ZERO':
        return ite(inside, v, ZERO)
    if mode == 'WRAP':
        return add(imod(sub(v, lo, N), n), lo, N)
    if mode == 'WRAP_SM':                                # reflected: b bits up, b bits down
        t = imod(sub(v, lo, N), mul(n, TWO, N))
        return add(lo, ite(lt(t, n), t, sub(sub(mul(n, TWO, N), ONE, N), t, N)), N)
    raise ValueError(mode)


def fixed_ref(x, k, b, i, R, S):
    """ap_(u)fixed<b, i, R, S> conversion; zero width yields zero"""
    if core.ctx_concrete(b) == 0:
        return ZERO
    f = sub(b, i, N)
    s = pow2(f)
    return div(sat(rnd(mul(x, s, N), R), k, b, S), s, N)


class Fixed(Harness):
    functions = ['HGQ.proxy.fixed_point_quantizer.gfixed_quantizer', 'RND, RND_ZERO, RND_MIN_INF, RND_INF, RND_CONV, TRN, TRN_ZERO', 'SAT, SAT_ZERO, SAT_SYM, WRAP, WRAP_SM']
    bounds = 'x = k*2^-5, |x| <= 16 (1025 values); every sign, width and integer-bit combination in the stated box; per element types; also wide, very coarse and very fine types with the grid of x scaled accordingly'
    e = -5               # grid of x

    def setup(self):
        from HGQ.proxy import fixed_point_quantizer as F
        self.F = F

    def inputs(self, v):
        n = (self.n,)
        return dict(x=v.dyadic('x', (1,) + n, self.e, -self.lim, self.lim), k=v.ints('k', n, 0, 1, 'int8'), b=v.ints('b', n, *self.b, 'int8'), i=v.ints('i', n, *self.i, 'int8'))

    def assume(self, ins):
        return [b_or(core.unb(le(k, b)), False) for k, b in zip(A(ins['k']), A(ins['b']))] if self.b[0] > 0 else True

    def run(self, ins):
        F = self.F
        if self.how == 'fn':
            y = F.gfixed_quantizer(ins['x'], ins['k'], ins['b'], ins['i'], self.R, self.S)
        else:
            l = F.FixedPointQuantizer(ins['k'], ins['b'], ins['i'], RND=self.R, SAT=self.S)
            y = l(ins['x'])
        return dict(y=y)

    def prop(self, ins, outs):
        x, k, b, i = A(ins['x']), A(ins['k']), A(ins['b']), A(ins['i'])
        want = vec(lambda a, c, d, e: fixed_ref(a, c, d, e, self.R, self.S), x, k, b, i)

        def unchanged(a, kk, bb, ii, y):
            if core.ctx_concrete(bb) == 0:
                return True
            s = pow2(sub(bb, ii, N))
            t = mul(a, s, N)
            hi = sub(pow2(sub(bb, kk, N)), ONE, N)
            lo = neg(mul(hi if self.S == 'SAT_SYM' else add(hi, ONE, N), kk, N))
            return b_implies(b_and(core.unb(eq(floor(t), t)), core.unb(le(lo, t)), core.unb(le(t, hi))), teq(y, a))
        return [('equals the reference conversion', eq_arr(outs['y'], want)), ('representable values are returned unchanged', claim_all(unchanged, x, k, b, i, A(outs['y'])))]


class Factory(Harness):
    functions = ['HGQ.proxy.fixed_point_quantizer.fixed', 'ufixed', 'gfixed']
    bounds = 'x = k*2^-4, |x| <= 16; width 1..4, integer bits -1..4'

    def setup(self):
        from HGQ.proxy import fixed_point_quantizer as F
        self.F = F

    def inputs(self, v):
        return dict(x=v.dyadic('x', (2,), -4, -256, 256), b=v.ints('b', (), 1, 4), i=v.ints('i', (), -1, 4))

    def run(self, ins):
        f = self.F.fixed if self.k else self.F.ufixed
        return dict(y=f(ins['b'], ins['i'], self.R, self.S)(ins['x']) if self.S else f(ins['b'], ins['i'])(ins['x']))

    def prop(self, ins, outs):
        b, i = A(ins['b']).reshape(-1)[0], A(ins['i']).reshape(-1)[0]
        return [('equals the reference conversion', eq_arr(outs['y'], vec(lambda a: fixed_ref(a, D(self.k, 0), b, i, self.R or 'TRN', self.S or 'WRAP'), A(ins['x']))))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for R in RNDS:
        for S in SATS:
            hs.append(Fixed(f'fixed[{R},{S}]', n=1, b=(1, 4), i=(-1, 3), R=R, S=S, how='fn', lim=512))
    for j, (R, S) in enumerate([(R, S) for R in RNDS for S in SATS]):
        b, i, e, lim = [((9, 11), (3, 5), -8, 8192), ((2, 3), (9, 11), 5, 512), ((2, 3), (-9, -7), -14, 512), ((14, 15), (15, 16), -1, 1 << 18)][j % 4]
        hs.append(Fixed(f'scaled[{R},{S}]', n=1, b=b, i=i, R=R, S=S, how='fn', lim=lim, e=e))
    for S in SATS:
        hs.append(Fixed(f'zero width[{S}]', n=1, b=(0, 1), i=(-1, 2), R='RND', S=S, how='fn', lim=512))
        hs.append(Fixed(f'layer[{S}]', n=2, b=(0, 2), i=(0, 1), R='TRN', S=S, how='layer', lim=256, cost=3))
    for R in ('RND', 'RND_CONV', 'RND_INF'):
        hs.append(Fixed(f'layer[{R}]', n=2, b=(1, 2), i=(0, 1), R=R, S='WRAP', how='layer', lim=256, cost=3))
    for k in (0, 1):
        hs.append(Factory(f'factory[{k}]', k=k, R=None, S=None))
        hs.append(Factory(f'factory[{k},RND,SAT]', k=k, R='RND', S='SAT'))
    if T:
        for R in RNDS:
            for S in SATS:
                hs.append(Fixed(f'T fixed[{R},{S}]', n=1, b=(1, 8), i=(-4, 8), R=R, S=S, how='fn', lim=8192))
        for S in SATS:
            hs.append(Fixed(f'T layer[{S}]', n=2, b=(0, 4), i=(-1, 3), R='RND', S=S, how='layer', lim=512))
    return hs
