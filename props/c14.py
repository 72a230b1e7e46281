from fractions import Fraction

import numpy as np

from .oracle import *
from .c07 import fixed_ref
from .c08 import conf, kconf, hlayers

ZERO = D(0, 0)


def values(kif):
    """every value of the type, ascending"""
    k, i, f = kif
    u = Fraction(2) ** -f
    n = 2 ** (k + i + f)
    lo = -n // 2 if k else 0
    return [(lo + j) * u for j in range(n)]


class Table(Harness):
    """the activation is arbitrary: one unknown per representable input"""
    functions = ['UnaryLUT.from_activation', 'UnaryLUT.__init__', 'UnaryLUT.call', 'gfixed_quantizer']
    bounds = 'input types up to 5 bits (thorough 7), integer bits -2..4; arbitrary activation values with 2 bits below and 1 bit above the output type; the stated output type and modes'

    def setup(self):
        self.vals = values(self.kin)

    def inputs(self, v):
        k, i, f = self.kin
        n = len(self.vals)
        lo = -n // 2 if k else 0
        ko, io, fo = self.kout
        m = 2 ** (io + fo + 3)
        return dict(x=v.dyadic('x', self.xs, -f, lo, lo + n - 1), t=v.dyadic('t', (n,), -fo - 2, -m, m))

    def run(self, ins):
        from HGQ.proxy.unary_lut import UnaryLUT
        import tensorflow as tf
        pos = {v: j for j, v in enumerate(self.vals)}
        t = ins['t']

        def activation(x):
            js = [pos.get(Fraction(float(a))) for a in np.asarray(x).reshape(-1)]
            assert None not in js, 'activation evaluated outside the input type'
            return t[np.array(js)].reshape(np.shape(x))
        kw = dict(kif_in=self.kin, kifRS_out=(*self.kout, self.R, self.S))
        l = UnaryLUT.from_activation(activation, **kw)
        n = int(l.table.shape[0])
        if self.typed:
            l = UnaryLUT.from_config(dict(l.get_config(), name='copy'))
            l.build((None,) + self.xs[1:])
            put(l.table, get(l_table(kw, activation)))
        return dict(y=l(ins['x']), n=n)

    def prop(self, ins, outs):
        t, x, y = A(ins['t']), A(ins['x']).reshape(-1), A(outs['y'])
        if y.shape != self.xs:
            return [('shape', False)]
        k, i, f = self.kout
        q = [fixed_ref(a, D(k, 0), D(k + i + f, 0), D(k + i, 0), self.R, self.S) for a in t]
        cl = [b_implies(core.unb(eq(a, core.from_fraction(v))), core.unb(teq(b, w))) for a, b in zip(x, y.reshape(-1)) for v, w in zip(self.vals, q)]
        return [('the table gives the activation of that input in the output type', b_and(*[core.unb(c) for c in cl])), ('one entry per input', outs['n'] == len(self.vals))]


def l_table(kw, activation):
    from HGQ.proxy.unary_lut import UnaryLUT
    return UnaryLUT.from_activation(activation, **kw).table


def funcs():
    import tensorflow as tf

    def parab(x):
        return x * x * .25 - x

    def bump(x):
        return tf.where(x < .5, x * .75, 1.25 - x * .5)

    def steps(x):
        return tf.floor(x * 2) * .625 + .25

    def hard(x):
        return tf.clip_by_value(x * .25 + .5, 0., 1.)
    return dict(parab=parab, bump=bump, steps=steps, hard=hard)


class Models(Harness):
    functions = ['to_proxy_model(unary_lut_max_table_size)', 'xfr_to_unary_lut', 'UnaryLUT', 'get_input_kifs', 'get_produced_kif', 'get_result_kifRS', 'merge_precision']
    bounds = 'every input on the grid 2^-4 with |x| <= 4 that keeps all quantizers in their calibrated range; one model per harness with concrete seeded weights and bitwidths (homogeneous and heterogeneous), calibrated on 24 random inputs; tables up to 256 entries; activations computed exactly on the grid'
    max_paths = 3000

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import trace_minmax, to_proxy_model
        from HGQ.layers.base import ABSBaseLayer
        ABSBaseLayer.input_bw = property(lambda l: None)
        rng = np.random.default_rng(self.seed)
        fn = funcs()[self.fn]
        p, pa = conf(self.strat, self.skip), conf(self.astrat, self.askip)
        I = tf.keras.layers.Input
        x = I((2,))
        h = H.HQuantize(paq_conf=p)(x)
        if self.net == 'act':
            y = H.HActivation(fn, paq_conf=pa)(h)
        elif self.net == 'dense':
            y = H.HActivation(fn, paq_conf=pa)(H.HDense(2, paq_conf=p, kq_conf=kconf())(h))
        elif self.net == 'relu':
            y = H.HDense(1, paq_conf=p, kq_conf=kconf())(H.HActivation(fn, paq_conf=pa)(H.HDense(2, activation='relu', paq_conf=p, kq_conf=kconf())(h)))
        elif self.net == 'two':
            y = H.HAdd(paq_conf=p)([H.HActivation(fn, paq_conf=pa)(h), H.HActivation(funcs()['hard'], paq_conf=pa)(h)])
        elif self.net == 'pass':
            y = H.HActivation(fn, paq_conf=pa)(H.PFlatten()(H.PPermute((2, 1))(H.PReshape((1, 2))(h))))
        elif self.net == 'chain':
            y = H.HActivation(funcs()['hard'], paq_conf=pa)(H.HActivation(fn, paq_conf=p)(h))
        self.m = tf.keras.Model(x, y)
        for l in hlayers(self.m):
            for w in l.weights:
                if 'activation_bw' in w.name:
                    v = rng.integers(self.f[0], self.f[1] + 1, w.shape)
                elif 'kernel_bw' in w.name:
                    v = np.full(w.shape, 2)
                elif 'kernel' in w.name or 'bias' in w.name:
                    v = rng.integers(-8, 9, w.shape) / 4
                else:
                    continue
                w.assign(np.asarray(v, 'float32').reshape(w.shape))
        cal = np.round(rng.normal(0, 1.2, (24, 2)).clip(-4, 4) * 16).astype('float32') / 16
        trace_minmax(self.m, cal, verbose=False, no_bops_computation=True)
        for l in hlayers(self.m):
            l.record_minmax = False
        self.rng0 = [(l, l.paq._min.numpy(), l.paq._max.numpy()) for l in hlayers(self.m)]
        self.p = to_proxy_model(self.m, aggressive=self.aggr)
        self.t = to_proxy_model(self.m, aggressive=self.aggr, unary_lut_max_table_size=256)
        self.kinds = [type(l).__name__ for l in self.t.layers]

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1, 2), -4, -64, 64))

    def run(self, ins):
        for l, a, b in self.rng0:
            l.record_minmax = True
            put(l.paq._min, a)
            put(l.paq._max, b)
        try:
            self.m(ins['x'], training=False)
        finally:
            for l, a, b in self.rng0:
                l.record_minmax = False
        outs = dict(without=self.p(ins['x']), tables=self.t(ins['x']))
        for i, (l, a, b) in enumerate(self.rng0):
            outs[f'mn{i}'], outs[f'mx{i}'] = get(l.paq._min), get(l.paq._max)
            put(l.paq._min, a)
            put(l.paq._max, b)
        return outs

    def prop(self, ins, outs):
        inr = []
        for i, (l, a, b) in enumerate(self.rng0):
            for u, w in ((A(outs[f'mn{i}']), A(a)), (A(outs[f'mx{i}']), A(b))):
                inr += [core.unb(eq(s, t)) for s, t in zip(u.reshape(-1), w.reshape(-1))]
        return [('tables leave the outputs of the proxy model as they are', b_implies(b_and(*inr), core.unb(eq_arr(outs['tables'], outs['without'])))),
                ('the activation became a table', 'UnaryLUT' in self.kinds)]


class Limit(Harness):
    """which activations become tables"""
    functions = ['xfr_to_unary_lut']
    bounds = 'requested size any integer 1..300; input types of 3..7 bits'

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer
        i = tf.keras.layers.Input((2,))
        h = FixedPointQuantizer(*[np.array(a, 'int8') for a in self.kbi])(i)
        self.l = tf.keras.layers.Activation(getattr(tf.keras.activations, self.act))
        FixedPointQuantizer(1, 6, 3)(self.l(h))
        k, b, n = np.array(self.kbi, int)
        self.size = 2 ** int(k.max() + (n - k).max() + (b - n).max())

    def inputs(self, v):
        return dict(n=v.ints('n', (), 1, 300))

    def run(self, ins):
        from HGQ.proxy.unary_lut import xfr_to_unary_lut
        n = A(ins['n']).item()
        r = xfr_to_unary_lut(self.l, max_table_size=n if core.CTX is not None else int(core.ctx_concrete(n)))
        return dict(table=int(type(r).__name__ == 'UnaryLUT'), size=int(r.table.shape[0]) if hasattr(r, 'table') else 0, same=int(r is self.l))

    def prop(self, ins, outs):
        want = le(D(self.size, 0), A(ins['n']).item()) if self.act not in ('relu', 'linear', 'softmax') else False
        return [('a table exactly when it fits', core.unb(eq(core.lift(outs['table']), ite(core.unb(want), D(1, 0), ZERO)))), ('of the required size', outs['size'] in (0, self.size)), ('or the layer itself', outs['table'] + outs['same'] == 1)]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    kins = [(0, 2, 1), (1, 2, 1), (1, 0, 2), (0, 0, 3), (0, 3, 0), (1, 3, 0), (1, -1, 3), (0, -2, 5), (1, 4, -2), (0, 4, -1), (1, 0, 0), (0, 1, 0), (1, 1, 3), (0, 2, 3)]
    kouts = [((1, 1, 1), 'TRN', 'WRAP'), ((0, 1, 2), 'RND', 'SAT'), ((1, 0, 2), 'RND', 'WRAP'), ((0, 2, 0), 'RND_CONV', 'SAT'), ((1, 2, -1), 'TRN', 'SAT')]
    for i, kin in enumerate(kins):
        for j, (ko, R, S) in enumerate(kouts):
            if T or (i + j) % 3 == 0 or kin == (1, 2, 1):
                hs.append(Table(f'table{kin}->{ko}{R},{S}', kin=kin, kout=ko, R=R, S=S, xs=(1, 2) if i % 2 else (1, 1), typed=(i + j) % 2 == 0))
    if T:
        for kin in ((1, 2, 4), (0, 3, 4), (1, 5, 0), (1, -2, 8), (0, 6, 0)):
            ko, R, S = kouts[sum(kin) % 5]
            hs.append(Table(f'T table{kin}', kin=kin, kout=ko, R=R, S=S, xs=(1, 1), typed=False))
    n = 0
    for net in ('act', 'dense', 'relu', 'two', 'pass', 'chain'):
        for fn in (('parab', 'bump', 'steps', 'hard') if T else ('parab', 'bump') if net in ('act', 'dense') else ('steps',) if net == 'chain' else ('bump',)):
            for skip, askip in ((('all', 'all'), ((0,), (0,)), ('all', (0,)), ((0,), 'all'))) if T or net in ('act', 'dense') else ((('all', 'all'), ((0,), (0,)))):
                n += 1
                for aggr in (True, False) if T else (n % 3 > 0,):
                    hs.append(Models(f'{net} {fn}[{skip},{askip},{aggr}]', net=net, fn=fn, skip=skip, askip=askip, aggr=aggr, strat=(0, 3)[n % 2], astrat=(3, 0, 0)[n % 3], f=(1, 2), seed=n, cost=3))
    kbis = [([1], [4], [2]), ([0], [3], [1]), ([1, 1], [4, 4], [3, 1]), ([0, 1], [3, 5], [2, 3])]
    for kbi in kbis:
        for act in ('tanh', 'sigmoid') if T else ('tanh',):
            hs.append(Limit(f'limit{kbi}{act}', kbi=kbi, act=act))
    hs += [Limit(f'limit {a}', kbi=kbis[0], act=a) for a in ('relu', 'linear', 'softmax')]
    return hs
