import numpy as np

from .oracle import *
from .c03 import groups

REALS = ['training-mode records: over the reals (rounding of the surrogate-gradient term not modelled)']


def extrema(vals):
    lo = hi = vals[0]
    for v in vals[1:]:
        lo, hi = minimum(lo, v), maximum(hi, v)
    return lo, hi


def check_record(ys, shape, mn, mx, fshape):
    """ys: list of recorded quantized arrays since the last reset."""
    mn, mx = A(mn), A(mx)
    if mn.shape != fshape or mx.shape != fshape:
        return False
    cs = []
    for g, ii in enumerate(groups(shape, fshape)):
        vals = [y[i] for y in ys for i in ii]
        a, b = mn.reshape(-1)[g], mx.reshape(-1)[g]
        if not vals:
            cs.append(is_inf(a, 1) and is_inf(b, -1))
            continue
        lo, hi = extrema(vals)
        cs.append(core.unb(teq(a, lo)))
        cs.append(core.unb(teq(b, hi)))
    return b_and(*cs)


def is_inf(a, s):
    return isinstance(a, float) and a == s * float('inf')


class Rec(Harness):
    """A history of calls, resets and non-recording calls on one quantizer; every tensor symbolic."""
    functions = ['HGQ.quantizer.quantizer.HGQ.forward (record_minmax)', 'HGQ.minmax_reg_reset', 'HGQ.__call__', 'HGQ.init_minmax']
    bounds = 'histories of up to 4 operations; x = k*2^-3, |x| <= 4; fbw = k*2^-1 in [-1, 2.5] per element'

    def setup(self):
        from HGQ.quantizer.quantizer import HGQ
        self.q = HGQ(2., self.skip, rnd_strategy=self.strat, minmax_record=True, exact_q_value=getattr(self, 'exact', True))
        self.q.build(self.shape)
        self.fshape = tuple(self.q.fbw.shape)
        if 't' in self.hist:
            self.float_mode, self.tol = 'real', 2 ** -12

    def inputs(self, v):
        d = {f'x{i}': v.dyadic(f'x{i}', self.shape, -3, -32, 32) for i, h in enumerate(self.hist) if h != 'R'}
        d['fbw'] = v.dyadic('fbw', self.fshape, -1 if getattr(self, 'exact', True) else 0, *self.f)
        return d

    def run(self, ins):
        outs = {}
        q = self.q
        put(q.fbw, ins['fbw'])
        q.minmax_reg_reset()
        for i, h in enumerate(self.hist):
            if h == 'R':
                q.minmax_reg_reset()
            elif h == 'r':
                outs[f'y{i}'] = q(ins[f'x{i}'], training=False, record_minmax=True)
            elif h == 'f':
                outs[f'y{i}'] = q.forward(ins[f'x{i}'], training=False, record_minmax=True)
            elif h == 't':
                outs[f'y{i}'] = q(ins[f'x{i}'], training=True, record_minmax=True)
            elif h == 'n':
                outs[f'y{i}'] = q(ins[f'x{i}'], training=False, record_minmax=False)
            elif h == 'd':
                outs[f'y{i}'] = q(ins[f'x{i}'])
            outs[f'mn{i}'], outs[f'mx{i}'] = get(q._min), get(q._max)
        return outs

    def prop(self, ins, outs):
        mode = STRATS[self.strat]
        rec, cl = [], []
        f = vec(round_even, A(ins['fbw']))
        for i, h in enumerate(self.hist):
            if h == 'R':
                rec = []
            elif h in 'rft' and getattr(self, 'byout', False):      # random or inexact values: what the call returned
                rec.append(A(outs[f'y{i}']))
            elif h in 'rft':
                rec.append(vec(lambda a, b: quant(a, b, mode), A(ins[f'x{i}']), f))
            cl.append((f'record after operation {i} ({h})', check_record(rec, self.shape, outs[f'mn{i}'], outs[f'mx{i}'], self.fshape)))
        return cl


class LayerRec(Harness):
    """Layers record the quantized values before the activation, in the calls that record."""
    functions = ['HLayerBase.call', 'HLayerBase.reset_minmax', 'HDense.jit_forward', 'HConv.jit_forward', 'HActivation.__forward', 'HAdd.forward', 'HQuantize.forward']
    bounds = 'x = k*2^-2, |x| <= 2, weights concrete; up to 3 calls per history'

    def setup(self):
        import tensorflow as tf
        import HGQ as H
        from HGQ.layers.misc import HActivation, HAdd
        relu = tf.keras.activations.relu
        kw = dict(paq_conf=dict(H.get_default_paq_conf(), skip_dims=self.skip, rnd_strategy='floor', init_bw=1))
        kw2 = dict(kw, kq_conf=dict(H.get_default_kq_conf(), init_bw=3))
        self.ishape = dict(dense=(2,), conv1=(3, 1), conv2=(2, 2, 1)).get(self.kind, (2,))
        self.ishape = dict(densebn=(2,), conv1bn=(3, 1), conv2bn=(2, 2, 1)).get(self.kind, self.ishape)
        bn = dict(kw2, scale='T' not in self.hist)
        mk = dict(densebn=lambda: H.HDenseBatchNorm(2, **bn), conv1bn=lambda: H.HConv1DBatchNorm(2, 2, **bn), conv2bn=lambda: H.HConv2DBatchNorm(1, 2, **bn), dense=lambda: H.HDense(2, activation=relu, **kw2), conv1=lambda: H.HConv1D(2, 2, activation=relu, **kw2), conv2=lambda: H.HConv2D(1, 2, activation='relu', **kw2),
                  act=lambda: HActivation('relu', **kw), add=lambda: HAdd(**kw), quant=lambda: H.HQuantize(**kw))[self.kind]
        self.l = mk()
        inp = tf.keras.layers.Input(self.ishape)
        self.twin = None
        if self.kind == 'add':
            self.l([inp, inp])
        else:
            self.l(H.HQuantize()(inp) if hasattr(self.l, 'use_bias') else inp)
        if self.kind.endswith('bn'):
            self.l.moving_mean.assign(np.linspace(-.5, .75, self.l.moving_mean.shape[0], dtype='float32'))
            self.l.bn_beta.assign(np.linspace(.5, -.25, self.l.bn_beta.shape[0], dtype='float32'))
            if self.l.scale:
                self.l.moving_variance.assign(np.linspace(.5, 2, self.l.bn_gamma.shape[0], dtype='float32'))
        if hasattr(self.l, 'use_bias'):
            rng = np.random.RandomState(3)
            self.l.kernel.assign((rng.randint(-4, 5, self.l.kernel.shape) / 4).astype('float32'))
            self.l.bias.assign((rng.randint(-4, 5, self.l.bias.shape) / 2).astype('float32'))
            self.l.kq.fbw.assign(np.full(self.l.kq.fbw.shape, 2., 'float32'))
            self.k, self.b = self.l.kernel.numpy(), self.l.bias.numpy()
        if 'T' in self.hist:
            self.float_mode, self.tol = 'real', 2 ** -10

    def inputs(self, v):
        d = {}
        for i, h in enumerate(self.hist):
            if h != 'R':
                d[f'x{i}'] = v.dyadic(f'x{i}', (2,) + self.ishape, -2, -8, 8)
                if self.kind == 'add':
                    d[f'z{i}'] = v.dyadic(f'z{i}', (2,) + self.ishape, -2, -8, 8)
        return d

    def run(self, ins):
        l = self.l
        outs = {}
        l.reset_minmax()
        l.record_minmax = False
        for i, h in enumerate(self.hist):
            if h == 'R':
                l.reset_minmax()
            else:
                x = ins[f'x{i}']
                x = [x, ins[f'z{i}']] if self.kind == 'add' else x
                l.record_minmax = h == 'S'
                if h == 'S' or h == 'n':
                    y = l(x, training=False)
                elif h == 'T':
                    y = l(x, training=True)
                elif h == 'e':
                    y = l(x, training=False, record_minmax=True)
                elif h == 'x':
                    l.record_minmax = True
                    y = l(x, training=False, record_minmax=False)
                if self.kind.endswith('bn'):
                    outs[f'y{i}'] = y
                l.record_minmax = False
            outs[f'mn{i}'], outs[f'mx{i}'] = get(l.paq._min), get(l.paq._max)
        return outs

    def pre(self, ins, i):
        x = A(ins[f'x{i}'])
        if self.kind == 'add':
            z = vec(lambda a, b: add(a, b, N), x, A(ins[f'z{i}']))
        elif self.kind == 'quant':
            z = x
        elif self.kind == 'act':
            z = vec(lambda a: maximum(a, D(0, 0)), x)
        elif self.kind == 'dense':
            z = lin(x, self.k, self.b)
        else:
            z = conv(x, self.k, self.b)
        return vec(lambda a: quant(a, D(1, 0), 'floor'), z)

    def prop(self, ins, outs):
        rec, cl = [], []
        for i, h in enumerate(self.hist):
            if h == 'R':
                rec = []
            elif h in 'STe':
                rec.append(A(outs[f'y{i}']) if self.kind.endswith('bn') else self.pre(ins, i))        # linear activation: what the call returned
            shape = rec[0].shape if rec else (2,) + tuple(self.l.output_shape[1:])
            cl.append((f'record after operation {i} ({h})', check_record(rec, shape, outs[f'mn{i}'], outs[f'mx{i}'], tuple(self.l.paq.fbw.shape))))
        return cl


def cst(a):
    return vec(lambda t: from_fraction(Fraction(float(t))), np.asarray(a, dtype=object))


def lin(x, k, b, f=2, fb=1):
    k, b = cst(k), cst(b)
    o = np.empty((x.shape[0], k.shape[1]), dtype=object)
    for n in range(x.shape[0]):
        for j in range(k.shape[1]):
            t = quant(b[j], D(fb, 0), 'floor')
            for i in range(k.shape[0]):
                t = add(t, mul(x[n, i], quant(k[i, j], D(f, 0), 'round'), N), N)
            o[n, j] = t
    return o


def conv(x, k, b, f=2, fb=1):
    """valid convolution, stride one, any rank"""
    k, b = cst(k), cst(b)
    ks = k.shape[:-2]
    osz = tuple(x.shape[1 + d] - ks[d] + 1 for d in range(len(ks)))
    o = np.empty((x.shape[0],) + osz + (k.shape[-1],), dtype=object)
    for idx in np.ndindex(*o.shape):
        n, pos, j = idx[0], idx[1:-1], idx[-1]
        t = quant(b[j], D(fb, 0), 'floor')
        for kk in np.ndindex(*ks):
            for c in range(k.shape[-2]):
                t = add(t, mul(x[(n,) + tuple(p + q for p, q in zip(pos, kk)) + (c,)], quant(k[kk + (c, j)], D(f, 0), 'round'), N), N)
        o[idx] = t
    return o


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for strat in (0, 3):
        for skip, shape in (((0,), (2, 2)), ('all', (2, 2)), ('none', (1, 2)), ('except_1st', (2, 2, 2)), ('except_last', (2, 2, 2)), ((0, 2), (2, 2, 2)), ((1,), (2, 2))):
            hist = 'rn' if len(shape) == 3 else 'rnfR' if strat == 0 else 'rrRd'
            hs.append(Rec(f'rec[{strat},{skip},{hist}]', shape=shape, skip=skip, strat=strat, f=(-2, 5), hist=hist))
        hs.append(Rec(f'rec[{strat},train,tnRt]', shape=(2, 1), skip=(0,), strat=strat, f=(-2, 5), hist='tnRt'))
        hs.append(Rec(f'rec[{strat},rRrnr]', shape=(2, 1), skip=(0,), strat=strat, f=(-6, 6), hist='rRrnr'))
    for kind in ('dense', 'act', 'add', 'quant'):
        for skip in ('batch', 'all'):
            hs.append(LayerRec(f'layer[{kind},{skip},STn]', kind=kind, skip=skip, hist='Sne'))
        hs.append(LayerRec(f'layer[{kind},xRT]', kind=kind, skip='batch', hist='xRT'))
    for kind in ('conv1', 'conv2'):
        hs.append(LayerRec(f'layer[{kind},batch,Sx]', kind=kind, skip='batch', hist='Sx'))
        hs.append(LayerRec(f'layer[{kind},except_last,eT]', kind=kind, skip='except_last', hist='eT'))
    for kind, skip in (('densebn', 'batch'), ('densebn', 'all'), ('conv1bn', 'batch'), ('conv2bn', 'except_last')):
        hs.append(LayerRec(f'layer[{kind},{skip},Sne]', kind=kind, skip=skip, hist='Sne'))
        hs.append(LayerRec(f'layer[{kind},{skip},xRT]', kind=kind, skip=skip, hist='xRT'))
    for strat in (1, 2):
        hs.append(Rec(f'rec[{strat},train,tnt]', shape=(2, 1), skip=(0,), strat=strat, f=(-2, 5), hist='tnt', byout=True, rand_used=True))
    for strat in (0, 3):
        hs.append(Rec(f'rec[{strat},train inexact,tnt]', shape=(2, 1), skip=(0,), strat=strat, f=(-1, 3), hist='tnt', byout=True, exact=False))
    if T:
        for strat in (0, 1, 2, 3):
            hs.append(Rec(f'T rec[{strat},long]', shape=(2, 2), skip=(0,), strat=strat if strat in (0, 3) else 0, f=(-2, 5), hist='rnrRfdrr'))
        for kind in ('dense', 'act', 'add', 'quant', 'conv1', 'conv2'):
            hs.append(LayerRec(f'T layer[{kind},STneRx]', kind=kind, skip='batch', hist='SneRSx'))
    return hs
