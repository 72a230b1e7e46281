import numpy as np

from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def extremum(f, rows, shape):
    """extremum over rows and over the dimensions of size one in shape"""
    out = np.empty(shape, dtype=object)
    for r in rows:
        for pos in np.ndindex(*r.shape):
            p = tuple(0 if n == 1 else q for q, n in zip((0,) + pos, shape))
            out[p] = r[pos] if out[p] is None else f(out[p], r[pos])
    return out


class Trace(Harness):
    """recorded ranges after a history of traces, against the values each quantizer gives out on the traced rows"""
    functions = ['HGQ.bops.trace_minmax', 'ResetMinMax.reset_minmax', 'CalibratedBOPs.on_epoch_end', 'HLayerBase.call', 'HLayerBase.reset_minmax', 'HGQ.forward (recording)', 'HGQ.minmax_reg_reset']
    bounds = 'up to 4 rows in all, inputs multiples of 1/4 with |x| <= 2 (models with a dense layer: |x| <= 1), 2 features; batch sizes 1 to 5; concrete fractional bits and kernels; cover factors any multiple of 1/4 in the stated range'
    factor = None
    mode, bops, lim = 'plain', False, 8
    cost = 1

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_kq_conf, get_default_paq_conf
        from HGQ.layers.base import ABSBaseLayer
        if not self.bops:
            ABSBaseLayer.input_bw = property(lambda l: None)
        K = tf.keras
        p = dict(get_default_paq_conf(), rnd_strategy=self.strat, skip_dims=self.skip)
        kq = dict(get_default_kq_conf())
        x = K.layers.Input((2,))
        q = H.HQuantize(paq_conf=p)
        self.ls, ins = [q], [x]
        if self.kind == 'quantize':
            y = q(x)
        elif self.kind == 'relu':
            a = H.HActivation('relu', paq_conf=p)
            y = a(q(x))
            self.ls.append(a)
        elif self.kind == 'dense':
            d, a = H.HDense(2, paq_conf=p, kq_conf=kq), H.HActivation('relu', paq_conf=p)
            y = a(d(q(x)))
            self.ls += [d, a]
        elif self.kind == 'two':
            x2, q2, s = K.layers.Input((2,)), H.HQuantize(paq_conf=p), H.HAdd(paq_conf=p)
            y = s([q(x), q2(x2)])
            ins.append(x2)
            self.ls += [q2, s]
        elif self.kind in ('nested', 'nested twice'):
            xi, qi = K.layers.Input((2,)), H.HQuantize(paq_conf=p)
            inner = K.Model(xi, qi(xi))
            if self.kind == 'nested twice':
                xo = K.layers.Input((2,))
                inner = K.Model(xo, inner(xo))
            y = inner(q(x))
            self.ls.append(qi)
        elif self.kind == 'sequential':
            a = H.HActivation('relu', paq_conf=p)
            self.m = K.Sequential([K.layers.Input((2,)), q, a])
            self.ls.append(a)
            y = None
        if y is not None:
            self.m = K.Model(ins if len(ins) > 1 else x, y)
        rng = np.random.default_rng(self.seed)
        for l in self.ls:
            l.paq.fbw.assign(rng.integers(-1, 3, l.paq.fbw.shape) / 1)
            if hasattr(l, 'kernel'):
                l.kernel.assign(rng.integers(-4, 5, l.kernel.shape) / 4)
                l.bias.assign(rng.integers(-4, 5, l.bias.shape) / 4)
                l.kq.fbw.assign(np.full(l.kq.fbw.shape, 2.))
        # the same layers, giving out every intermediate value
        h = [K.layers.Input((2,)) for _ in ins]
        outs = []
        v = h[0]
        if self.kind == 'two':
            outs = [self.ls[0](h[0]), self.ls[1](h[1])]
            outs.append(self.ls[2](outs))
        else:
            for l in self.ls:
                v = l(v)
                outs.append(v)
        self.all = K.Model(h, outs)
        self.n_in = len(ins)

    def inputs(self, v):
        d = {f'x{i}{j}': v.dyadic(f'x{i}{j}', (n, 2), -2, -self.lim, self.lim) for i, (n, *_) in enumerate(self.history) for j in range(self.n_in)}
        d.update({f'e{j}': v.dyadic(f'e{j}', (1, 2), -2, -self.lim, self.lim) for j in range(self.n_in)})
        if self.factor:
            d['c'] = v.dyadic('c', (), -2, *self.factor)
        return d

    def run(self, ins):
        from HGQ.bops import CalibratedBOPs, ResetMinMax, trace_minmax
        outs = {}
        ctx = core.CTX is not None
        for l in self.ls:
            l.record_minmax = False
            l.reset_minmax()
        for i, (n, bsz, rst) in enumerate(self.history):
            xs = [ins[f'x{i}{j}'] for j in range(self.n_in)]
            data = xs if self.n_in > 1 or self.mode == 'list' else xs[0]
            kw = dict(cover_factor=ins['c'] if ctx else float(ins['c'])) if self.factor else {}
            if self.mode == 'callback':
                cb = CalibratedBOPs(data, bsz)
                cb.set_model(self.m)
                logs = {}
                cb.on_epoch_end(0, logs)
                outs[f'bops{i}'] = logs['bops']
            elif self.mode == 'predict':
                outs[f'bops{i}'], outs[f'p{i}'] = trace_minmax(self.m, data, bsz=bsz, verbose=False, rst=rst, return_predictions=True, **kw)
            elif self.mode == 'reset':
                trace_minmax(self.m, data, bsz=bsz, verbose=False, rst=rst, no_bops_computation=True)
                if rst is None:
                    pass
                ResetMinMax.reset_minmax(self.m)
                trace_minmax(self.m, data[:1], verbose=False, rst=False, no_bops_computation=True)
            else:
                trace_minmax(self.m, data, bsz=bsz, verbose=False, rst=rst, no_bops_computation=not self.bops, **kw)
        outs['recording'] = np.array([bool(l.record_minmax) for l in self.ls])
        xe = [ins[f'e{j}'] for j in range(self.n_in)]
        outs['ye'] = self.m(xe if self.n_in > 1 else xe[0], training=False)         # inference afterwards leaves the ranges alone
        for i, l in enumerate(self.ls):
            outs[f'mn{i}'], outs[f'mx{i}'] = get(l.paq._min), get(l.paq._max)
        for i, (n, *_) in enumerate(self.history):
            vs = self.all([ins[f'x{i}{j}'] for j in range(self.n_in)], training=False)
            for j, y in enumerate(vs if isinstance(vs, (list, tuple)) else [vs]):
                outs[f'v{i}_{j}'] = y
        return outs

    def prop(self, ins, outs):
        r = [('recording is off after tracing', not np.any(np.asarray(outs['recording'], bool)))]
        first = max([0] + [i for i, (_, _, rst) in enumerate(self.history) if rst or self.mode in ('callback', 'reset')])
        for i, l in enumerate(self.ls):
            rows = []
            for h in range(first, len(self.history)):
                v = A(outs[f'v{h}_{i}'])
                rows += list(v[:1] if self.mode == 'reset' else v)
            shape = tuple(l.paq.fbw.shape)
            mn, mx = extremum(minimum, rows, shape), extremum(maximum, rows, shape)
            gmn, gmx = A(outs[f'mn{i}']), A(outs[f'mx{i}'])
            if gmn.shape != shape or gmx.shape != shape:
                r.append(('one range per bitwidth', False))
                continue
            if self.factor:
                c = core.lift(A(ins['c']).reshape(-1)[0])
                f = cst(l.paq.fbw.numpy())
                mode = STRATS[l.paq.rnd_strategy]
                mid = vec(lambda a, b: div(add(a, b, N), TWO, N), mn, mx)
                half = vec(lambda a, b: mul(div(sub(b, a, N), TWO, N), c, N), mn, mx)
                big = core.unb(le(ONE, c))
                r.append((f'layer {i}: a factor of at least one loses nothing', claim_all(lambda g, a, h, b: b_implies(big, b_and(core.unb(le(g, a)), core.unb(le(b, h)))), gmn, mn, gmx, mx)))
                mn = vec(lambda m, h, ff: quant(sub(m, h, N), ff, mode), mid, half, f)
                mx = vec(lambda m, h, ff: quant(add(m, h, N), ff, mode), mid, half, f)
            r.append((f'layer {i}: recorded minimum', eq_arr(gmn, mn)))
            r.append((f'layer {i}: recorded maximum', eq_arr(gmx, mx)))
        if self.mode == 'predict':
            for h in range(len(self.history)):
                r.append(('predictions of every row in order', eq_arr(outs[f'p{h}'], outs[f'v{h}_{len(self.ls) - 1}'])))
        if self.bops or self.mode in ('callback', 'predict'):
            r += [('nothing to multiply costs nothing', bool(np.all(np.asarray(outs[k]) == 0))) for k in outs if k.startswith('bops')]
        return r


def cst(a):
    return vec(lambda t: from_fraction(Fraction(float(t))), np.asarray(a))


class Clamp(Harness):
    """ranges of softmax, sigmoid and tanh, whatever was recorded before"""
    functions = ['trace_minmax (ranges of bounded activations)']
    bounds = 'activation values arbitrary reals (uninterpreted function) of 2 rows of 2 inputs, cover factor 1 or any multiple of 1/4 in [1/4, 4]; one or two layers with the activation'
    assumptions = ['over the reals', 'the activation functions themselves are uninterpreted; the claims hold for any values of theirs']
    float_mode = 'real'
    tol = Fraction(1, 1024)
    validate = 0

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ import get_default_paq_conf
        p = dict(get_default_paq_conf(), rnd_strategy='floor', skip_dims=self.skip)
        x = tf.keras.layers.Input((2,))
        self.l = H.HActivation(self.act, paq_conf=p)
        self.l2 = H.HActivation('relu', paq_conf=p)
        self.m = tf.keras.Model(x, self.l2(self.l(x)))
        for l in (self.l, self.l2):
            l.paq.fbw.assign(np.full(l.paq.fbw.shape, 2.))

    def inputs(self, v):
        s = tuple(self.l.paq.fbw.shape)
        return dict(x=v.dyadic('x', (2, 2), -2, -8, 8), mn=v.dyadic('mn', s, -2, -16, 16), mx=v.dyadic('mx', s, -2, -16, 16), c=v.dyadic('c', (), -2, *self.factor))

    def assume(self, ins):
        return [le(a, b) for a, b in zip(A(ins['mn']).reshape(-1), A(ins['mx']).reshape(-1))]

    def run(self, ins):
        from HGQ.bops import trace_minmax
        put(self.l.paq._min, ins['mn'])                 # as if recorded by an earlier trace
        put(self.l.paq._max, ins['mx'])
        put(self.l2.paq._min, ins['mn'])
        put(self.l2.paq._max, ins['mx'])
        trace_minmax(self.m, ins['x'][:self.rows], verbose=False, no_bops_computation=True, rst=False, cover_factor=ins['c'] if core.CTX is not None else float(ins['c']))
        return dict(mn=get(self.l.paq._min), mx=get(self.l.paq._max), rmx=get(self.l2.paq._max))

    def prop(self, ins, outs):
        mn, mx, rmx = A(outs['mn']), A(outs['mx']), A(outs['rmx'])
        one = core.unb(eq(core.lift(A(ins['c']).reshape(-1)[0]), ONE))
        if self.act == 'softmax':
            r = [('softmax: range 0 to 1', b_and(claim_all(lambda a: core.unb(teq(a, ZERO)), mn), claim_all(lambda a: core.unb(teq(a, ONE)), mx)))]
        else:
            lo = ZERO if self.act == 'sigmoid' else D(-1, 0)
            r = [(f'{self.act}: range within its bounds', b_and(claim_all(lambda a: core.unb(le(lo, a)), mn), claim_all(lambda a: core.unb(le(a, ONE)), mx)))]
            if self.rows == 0:
                # nothing recorded on top: the clamped earlier range
                r.append((f'{self.act}: only what lies outside is cut', b_implies(one, b_and(claim_all(lambda g, a: core.unb(teq(g, maximum(a, lo))), mn, A(ins['mn'])), claim_all(lambda g, a: core.unb(teq(g, minimum(a, ONE))), mx, A(ins['mx']))))))
        if self.rows == 0:
            r.append(('other activations are not cut', b_implies(one, claim_all(lambda g, a: core.unb(teq(g, a)), rmx, A(ins['mx'])))))
        return r


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    n = 0

    def add_(name, **kw):
        nonlocal n
        n += 1
        kw = dict(dict(kind='quantize', skip=((0,), 'all')[n % 2], strat=('standard_round', 'floor')[(n // 2) % 2], seed=n), **kw)
        hs.append(Trace(name, **kw))
    for bsz in (1, 2, 3, 5):
        add_(f'rows3[{bsz}]', history=[(3, bsz, True)])
        add_(f'dense rows3[{bsz}]', kind='dense', history=[(3, bsz, True)], lim=4)
        add_(f'relu rows3[{bsz}]', kind='relu', history=[(3, bsz, True)])
    for bsz in (1, 2):
        add_(f'two inputs[{bsz}]', kind='two', history=[(3, bsz, True)])
        add_(f'nested[{bsz}]', kind='nested', history=[(2, bsz, True)])
        add_(f'sequential[{bsz}]', kind='sequential', history=[(3, bsz, True)])
    add_('nested twice', kind='nested twice', history=[(2, 1, True), (1, 3, False)])
    add_('default batch', history=[(3, 16384, True)], kind='relu')
    add_('list', history=[(3, 2, True)], mode='list')
    for kind in ('quantize', 'relu', 'nested', 'dense'):
        lim = 4 if kind == 'dense' else 8
        add_(f'{kind}: two traces', kind=kind, history=[(2, 2, True), (1, 1, True)], lim=lim)
        add_(f'{kind}: two traces, no reset', kind=kind, history=[(2, 1, True), (2, 3, False)], lim=lim)
        add_(f'{kind}: no reset at all', kind=kind, history=[(1, 1, False), (1, 3, False)], lim=lim)
    add_('reset between', kind='nested', history=[(2, 1, True), (1, 1, False), (1, 1, True)])
    add_('reset explicitly', kind='nested', history=[(2, 2, True)], mode='reset')
    add_('with bops', kind='quantize', history=[(3, 2, True)], bops=True, skip='all')
    add_('callback', kind='quantize', history=[(3, 2, True)], mode='callback', skip='all')
    add_('callback default batch', kind='quantize', history=[(3, None, True), (2, 1, True)], mode='callback', skip='all')
    add_('predictions', kind='quantize', history=[(3, 2, True)], mode='predict', skip='all')
    add_('predictions relu', kind='relu', history=[(3, 2, True)], mode='predict', skip='all')
    for kind in ('quantize', 'relu', 'nested', 'dense'):
        for strat in ('standard_round', 'floor'):
            for skip in ((0,), 'all'):
                add_(f'{kind} factor[{strat},{skip}]', kind=kind, strat=strat, skip=skip, history=[(2, 1, True)], factor=(1, 16), lim=2 if kind == 'dense' else 4)
    for act in ('softmax', 'sigmoid', 'tanh'):
        for skip in ((0,), 'all'):
            for rows in (0, 2):
                hs.append(Clamp(f'{act}[{skip},{rows} rows]', act=act, skip=skip, rows=rows, factor=(1, 16)))
    if T:
        for bsz in (1, 2, 3, 4, 5):
            add_(f'T rows4[{bsz}]', kind='dense', history=[(4, bsz, True), (2, 1, False)], lim=8)
            add_(f'T two[{bsz}]', kind='two', history=[(4, bsz, True)], factor=(1, 32))
    return hs
