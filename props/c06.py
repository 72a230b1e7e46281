import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def bit_claims(w, k, i, f):
    """claims for one quantized weight and its reported sign, integer and fractional bits"""
    a = absolute(w)
    zero = core.unb(eq(w, ZERO))
    t = mul(a, pow2(f), N)
    h = div(t, TWO, N)
    odd = b_and(core.unb(eq(floor(t), t)), b_not(core.unb(eq(floor(h), h))))
    top = b_and(core.unb(lt(a, pow2(i))), core.unb(le(pow2(sub(i, ONE, N)), a)))
    return [('a zero weight costs nothing', b_implies(zero, b_and(core.unb(teq(k, ZERO)), core.unb(teq(add(i, f, N), ZERO))))),
            ('sign flag exactly for negative weights', b_and(b_implies(core.unb(lt(w, ZERO)), core.unb(teq(k, ONE))), b_implies(core.unb(le(ZERO, w)), core.unb(teq(k, ZERO))))),
            ('lowest reported bit is the lowest set bit', b_implies(b_not(zero), odd)),
            ('highest reported bit is the highest set bit', b_implies(b_not(zero), top))]


def merge(lists):
    r = {}
    for l in lists:
        for n, b in l:
            r.setdefault(n, []).append(core.unb(b))
    return [(n, b_and(*bs)) for n, bs in r.items()]


class Arr(Harness):
    functions = ['HGQ.quantizer.quantizer.get_arr_bits']
    assumptions = ['the float64 base-2 logarithm is correct at and next to powers of two inside the bounds']

    @property
    def bounds(self):
        return f'arrays of shape {self.shape}, values k*2^{self.e} with |k| <= {self.lim}'

    def setup(self):
        from HGQ.quantizer import quantizer
        self.fn = quantizer.get_arr_bits

    def inputs(self, v):
        return dict(w=v.dyadic('w', self.shape, self.e, -self.lim, self.lim))

    def run(self, ins):
        k, i, f = self.fn(ins['w'])
        return dict(k=k, i=i, f=f)

    def prop(self, ins, outs):
        w, k, i, f = A(ins['w']), A(outs['k']), A(outs['i']), A(outs['f'])
        if not (w.shape == k.shape == i.shape == f.shape):
            return [('one result per weight', False)]
        return merge(bit_claims(*t) for t in zip(w.reshape(-1), k.reshape(-1), i.reshape(-1), f.reshape(-1)))


class Mixed(Arr):
    """a tiny next to a large weight"""
    @property
    def bounds(self):
        return f'two values, k*2^{self.e} and k*2^{self.e2} with |k| <= {self.lim}'

    def inputs(self, v):
        return dict(a=v.dyadic('a', (1,), self.e, -self.lim, self.lim), b=v.dyadic('b', (1,), self.e2, -self.lim, self.lim))

    def run(self, ins):
        k, i, f = self.fn(np.concatenate([ins['a'], ins['b']]))
        return dict(k=k, i=i, f=f)

    def prop(self, ins, outs):
        return super().prop(dict(w=np.concatenate([A(ins['a']), A(ins['b'])])), outs)


class Kernel(Harness):
    functions = ['HGQ.get_bits_exact (tensor)', 'HLayerBase.kernel_bw_exact', 'HGQ.forward', 'get_arr_bits']
    bounds = 'kernels of shape (2,1), values k*2^-2 with |k| <= 6 (thorough: k*2^-3, |k| <= 12); fbw = k*2^-1 in [-1,2] shared, [1,1.5] per element (thorough [-1,3])'
    assumptions = Arr.assumptions

    def setup(self):
        import HGQ as H
        self.l = H.HDense(1, kq_conf=dict(H.get_default_kq_conf(), rnd_strategy=self.strat, skip_dims=self.skip))
        self.l.build((None, 2))
        self.fshape = tuple(self.l.kq.fbw.shape)

    def inputs(self, v):
        return dict(w=v.dyadic('w', (2, 1), self.e, -self.lim, self.lim), fbw=v.dyadic('fbw', self.fshape, -1, *self.f))

    def run(self, ins):
        put(self.l.kernel, ins['w'])
        put(self.l.kq.fbw, ins['fbw'])
        k, i, f = self.l.kq.get_bits_exact(self.l.kernel)
        return dict(k=k, i=i, f=f, bw=self.l.kernel_bw_exact)

    def prop(self, ins, outs):
        fr = vec(round_even, A(ins['fbw']))
        w = vec(lambda a, b: quant(a, b, 'floor' if self.strat == 'floor' else 'round'), A(ins['w']), fr)
        k, i, f, bw = [A(outs[n]) for n in ('k', 'i', 'f', 'bw')]
        if not (w.shape == k.shape == i.shape == f.shape == bw.shape):
            return [('one result per weight', False)]
        return merge(bit_claims(*t) for t in zip(w.reshape(-1), k.reshape(-1), i.reshape(-1), f.reshape(-1))) + [('kernel bitwidth is integer plus fractional bits', eq_arr(bw, vec(lambda a, b: add(a, b, N), i, f)))]


def harnesses(tier):
    T = tier == 'thorough'
    hs = [Arr('arr[1 fractional]', shape=(1,), e=-6, lim=255), Arr('arr[1 integer]', shape=(1,), e=2, lim=31), Arr('arr[pair]', shape=(2,), e=-2, lim=15, cost=3), Arr('arr[2x1]', shape=(2, 1), e=-1, lim=7),
          Arr('arr[three]', shape=(3,), e=-1, lim=2, cost=2), Arr('arr[tiny]', shape=(1,), e=-14, lim=15), Arr('arr[tinier]', shape=(1,), e=-28, lim=15), Arr('arr[large]', shape=(1,), e=12, lim=31),
          Mixed('arr[mixed]', shape=(2,), e=-12, e2=5, lim=5), Mixed('arr[very mixed]', shape=(2,), e=8, e2=-18, lim=3)]
    for strat in ('standard_round', 'floor'):
        hs.append(Kernel(f'kernel[{strat},shared]', strat=strat, skip='all', e=-2, lim=6, f=(-2, 4), cost=3))
        hs.append(Kernel(f'kernel[{strat},each]', strat=strat, skip=None, e=-2, lim=6, f=(2, 3), cost=4))
    if T:
        hs += [Arr('T arr[1]', shape=(1,), e=-8, lim=4095), Arr('T arr[pair]', shape=(2,), e=-4, lim=127), Arr('T arr[three]', shape=(3,), e=-2, lim=7), Arr('T arr[four]', shape=(4,), e=0, lim=3)]
        hs.append(Kernel('T kernel[each]', strat='standard_round', skip=None, e=-3, lim=12, f=(-2, 6)))
    return hs
