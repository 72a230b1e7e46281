import re

import numpy as np

from .oracle import *
from .c07 import fixed_ref, rnd
from .c08 import build, scramble, hlayers, conf, kconf
from .c14 import funcs

ZERO, ONE = D(0, 0), D(1, 0)


def num(x):
    """a Python, NumPy or symbolic integer as a scalar"""
    return core.lift(A(x).item()) if not isinstance(x, int) else core.from_fraction(__import__('fractions').Fraction(x))


def small(f, hi=80):
    """65535 stands for unlimited"""
    return minimum(f, D(hi, 0))


def holds(a, kif):
    """a is a value of the type"""
    k, i, f = [num(t) for t in kif]
    i, f = small(i), small(f)
    t = mul(a, pow2(f), N)
    lim = pow2(i)
    return b_and(core.unb(eq(floor(t), t)), core.unb(le(ite(core.unb(eq(k, ZERO)), ZERO, neg(lim)), a)), core.unb(lt(a, lim)))


def fixed_kif(a, kif, R, S, least=0):
    k, i, f = [num(t) for t in kif]
    return fixed_ref(a, k, maximum(add(add(k, i, N), f, N), D(least, 0)), add(k, i, N), R, S)


def no_overflow(a, kif, R):
    k, i, f = [num(t) for t in kif]
    t = div(rnd(mul(a, pow2(f), N), R), pow2(f), N)
    return b_and(core.unb(le(ite(core.unb(eq(k, ZERO)), ZERO, neg(pow2(i))), t)), core.unb(lt(t, pow2(i))))


class Merge(Harness):
    functions = ['merge_precision', 'get_request_kif', 'get_requested_kif', 'FixedPointQuantizer.result_t_kif']
    bounds = 'available and consumer types: sign 0/1, integer bits -1..2, fractional bits -1..2 (thorough -2..4), at least one bit; values of the available type; consumers that truncate or round half up, one or two of them, directly or behind reshape, flatten and concatenate'

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy import precision_derivation as P
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer as Q
        self.P = P
        L = tf.keras.layers
        x = L.Input((2,))
        self.l = L.Activation('relu')
        h = self.l(x)
        t = dict(none=lambda v: v, flatten=L.Flatten(), reshape=L.Reshape((1, 2)), concat=lambda v: L.Concatenate()([v, x]))[self.via](h)
        self.q = [Q(*[np.zeros(self.n, 'int8') + c for c in (1, 4, 2)], R, S) for R, S in self.modes]
        for q in self.q:
            q(t)

    def inputs(self, v):
        lo, hi = self.box
        d = dict(v=v.dyadic('v', (), -hi, -2 ** (2 * hi), 2 ** (2 * hi)))
        for t in ['a'] + [f'q{j}' for j in range(len(self.q))]:
            s = () if t == 'a' else (self.n,)
            d.update({t + 'k': v.ints(t + 'k', s, 0, 1, 'int8'), t + 'i': v.ints(t + 'i', s, lo, hi, 'int8'), t + 'f': v.ints(t + 'f', s, lo, hi, 'int8')})
        return d

    def assume(self, ins):
        kif = lambda t: zip(*[A(ins[t + c]).reshape(-1) for c in 'kif'])  # noqa: E731
        r = [le(ONE, add(add(a, b, N), c, N)) for t in ['a'] + [f'q{j}' for j in range(len(self.q))] for a, b, c in kif(t)]
        return r + [holds(A(ins['v']).item(), [ins['ak'], ins['ai'], ins['af']])]

    def run(self, ins):
        for j, q in enumerate(self.q):
            k, i, f = [ins[f'q{j}' + c] for c in 'kif']
            put(q.keep_negative, k)
            put(q.bits, k + i + f)
            put(q.integers, k + i)
        if core.CTX is None:
            ins = {n: (int(a) if a.ndim == 0 else a) for n, a in ins.items()}
        if not (hasattr(self.P, 'merge_precision') and hasattr(self.P, 'get_requested_kif')):
            raise core.Unsupported('the code is organised differently: covered by the whole-model harnesses')
        r = self.P.merge_precision((ins['ak'], ins['ai'], ins['af']), self.P.get_requested_kif(self.l))
        return dict(k=r[0], i=r[1], f=r[2])

    def prop(self, ins, outs):
        v = A(ins['v']).item()
        m = [A(outs[c]).item() for c in 'kif']
        w = fixed_kif(v, m, 'TRN', 'WRAP', least=1)      # types are registered with at least one bit
        cl = []
        for j, (R, S) in enumerate(self.modes):
            for e in range(self.n):
                kif = [A(ins[f'q{j}' + c]).reshape(-1)[e] for c in 'kif']
                ok = True if S == 'SAT' else no_overflow(v, kif, R)
                cl.append(b_implies(ok, core.unb(teq(fixed_kif(w, kif, R, S), fixed_kif(v, kif, R, S)))))
        return [('the consumer sees the same value', b_and(*cl))]


class Requant(Harness):
    """a quantizer behind another one, all bitwidths symbolic"""
    functions = ['get_produced_kif (FixedPointQuantizer)', 'get_input_kifs', 'FixedPointQuantizer.result_t_kif', 'gfixed_quantizer']
    bounds = 'source and quantizer types symbolic per element: sign 0/1, integer bits and fractional bits in the stated box, zero-width elements included; every value of the source type; truncation and rounding half up, each of WRAP, SAT, SAT_SYM (the latter with an unsigned source or untouched sign)'

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy import precision_derivation as P
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer as Q
        self.P = P
        x = tf.keras.layers.Input((2,))
        self.src = Q(1, 4, 2, 'TRN', 'WRAP')
        self.q = Q(*[np.zeros(self.n, 'int8') + c for c in (1, 4, 2)], self.R, self.S)
        self.q(self.src(x))

    def inputs(self, v):
        lo, hi = self.box
        d = dict(v=v.dyadic('v', (1, 2), -hi, -2 ** (2 * hi), 2 ** (2 * hi)))
        for t, n in (('s', 1), ('q', self.n)):
            d.update({t + 'k': v.ints(t + 'k', (n,), 0, 1, 'int8'), t + 'i': v.ints(t + 'i', (n,), lo, hi, 'int8'), t + 'f': v.ints(t + 'f', (n,), lo, hi, 'int8')})
        return d

    def assume(self, ins):
        kif = lambda t: zip(*[A(ins[t + c]).reshape(-1) for c in 'kif'])  # noqa: E731
        r = [le(ONE, add(add(a, b, N), c, N)) for a, b, c in kif('s')]
        # zero-width elements are stored as (0, 0, 0)
        r += [b_or(core.unb(le(ONE, add(add(a, b, N), c, N))), b_and(*[core.unb(eq(t, ZERO)) for t in (a, b, c)])) for a, b, c in kif('q')]
        return r + [holds(a, next(kif('s'))) for a in A(ins['v']).reshape(-1)]

    def run(self, ins):
        for t, q in (('s', self.src), ('q', self.q)):
            k, i, f = [ins[t + c] for c in 'kif']
            put(q.keep_negative, k)
            put(q.bits, k + i + f)
            put(q.integers, k + i)
        y0 = self.q(ins['v'])
        r = self.P.get_produced_kif(self.q)
        return dict(y0=y0, y1=self.q(ins['v']), k=r[0], i=r[1], f=r[2], s=self.src(ins['v']))

    def prop(self, ins, outs):
        kif = [A(outs[c]).item() for c in 'kif']
        y0 = A(outs['y0']).reshape(-1)
        return [('deriving the precision leaves the outputs as they are', eq_arr(outs['y0'], outs['y1'])), ('the derived precision holds the outputs', b_and(*[core.unb(b_or(eq(a, ZERO), holds(a, kif))) for a in y0])),
                ('the source keeps its values', eq_arr(outs['s'], ins['v']))]


class First(Harness):
    """a quantizer at the input of the network, where nothing is known about the values"""
    functions = ['get_produced_kif (FixedPointQuantizer behind an input)']
    bounds = 'integer and fractional bits 9..12, sign 0/1, i + f <= 22, every input on the grid 2^-13 with |x| <= 2^10'

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy import precision_derivation as P
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer as Q
        self.P = P
        self.q = Q(1, 4, 2, self.R, self.S)
        self.q(tf.keras.layers.Input((1,)))

    def inputs(self, v):
        return dict(v=v.dyadic('v', (1, 1), -13, -2 ** 23, 2 ** 23), k=v.ints('k', (1,), 0, 1, 'int8'), i=v.ints('i', (1,), 9, 12, 'int8'), f=v.ints('f', (1,), 9, 12, 'int8'))

    def assume(self, ins):
        return [le(add(A(ins['i']).item(), A(ins['f']).item(), N), D(22, 0))]

    def run(self, ins):
        k, i, f = ins['k'], ins['i'], ins['f']
        put(self.q.keep_negative, k)
        put(self.q.bits, k + i + f)
        put(self.q.integers, k + i)
        y0 = self.q(ins['v'])
        r = self.P.get_produced_kif(self.q)
        return dict(y0=y0, y1=self.q(ins['v']), k=r[0], i=r[1], f=r[2])

    def prop(self, ins, outs):
        return [('deriving the precision leaves the outputs as they are', eq_arr(outs['y0'], outs['y1'])), ('the derived precision holds the outputs', holds(A(outs['y0']).item(), [A(outs[c]).item() for c in 'kif']))]


class Produced(Harness):
    functions = ['get_produced_kif (Dense, Conv, Add, Subtract, Dot, Concatenate, pooling, Flatten, Reshape, Permute, Activation, ReLU)', 'activation_kif_forward', 'get_arr_container']
    bounds = 'input types as stated per harness; every input value of that type; kernels and biases symbolic multiples of 1/4 in the stated box; average pooling over power-of-two windows; windows, strides and shapes as stated'
    assumptions = ['the float32 base-2 logarithm is correct at and next to powers of two inside the bounds']

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy import precision_derivation as P
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer as Q
        self.P = P
        L = tf.keras.layers
        self.xs = [L.Input(s) for s in self.shapes]
        hs = [Q(k, k + i + f, k + i)(x) for x, (k, i, f) in zip(self.xs, self.types)]
        kind, a = self.kind
        a = dict(a)
        fn = a.pop('fn', None)
        self.l = getattr(L, kind)(**a) if fn is None else L.Activation(funcs()[fn] if fn in funcs() else fn)
        y = self.l(hs if len(hs) > 1 else hs[0])
        self.m = tf.keras.Model(self.xs, y)
        self.w = [w for w in self.l.weights]

    def inputs(self, v):
        d = {}
        for j, (s, (k, i, f)) in enumerate(zip(self.shapes, self.types)):
            n = 2 ** (i + f)
            d[f'x{j}'] = v.dyadic(f'x{j}', (1,) + s, -f, -n if k else 0, n - 1)
        for j, w in enumerate(self.w):
            lo, hi = self.wbox if 'kernel' in w.name else self.bbox
            d[f'w{j}'] = v.dyadic(f'w{j}', tuple(w.shape), -1 if 'kernel' in w.name else -2, lo, hi)
        return d

    def run(self, ins):
        for j, w in enumerate(self.w):
            put(w, ins[f'w{j}'])
        x = [ins[f'x{j}'] for j in range(len(self.shapes))]
        y = self.m(x if len(x) > 1 else x[0])
        k, i, f = self.P.get_produced_kif(self.l)
        return dict(y=y, k=k, i=i, f=f)

    def prop(self, ins, outs):
        kif = [A(outs[c]).item() for c in 'kif']
        return [('the derived precision holds every output', b_and(*[holds(a, kif) for a in A(outs['y']).reshape(-1)]))]


def parse(name):
    m = re.fullmatch(r'(u?)fixed<(\d+),(-?\d+)(?:,(\w+))?(?:,(\w+))?>', name)
    return int(not m[1]), int(m[2]), int(m[3]), m[4] or 'TRN', m[5] or 'WRAP'


def quantize(x, name):
    """conversion of an array to the named type, by the reference semantics"""
    from hgqsym.symarray import SymArray
    k, b, i, R, S = parse(name)
    r = vec(lambda a: fixed_ref(a, num(k), num(b), num(i), R, S), A(x))
    if core.CTX is not None:
        return SymArray(r, 'float32')
    return np.array([float(core.ctx_concrete(a)) for a in r.reshape(-1)], 'float32').reshape(r.shape)


def extra():
    """networks beyond those of C08, where precisions have to travel further"""
    import tensorflow as tf
    import HGQ.layers as H
    L = tf.keras.layers

    def fan(xs, p, r):
        h = H.HQuantize(paq_conf=p)(xs[0])
        d = H.HDense(2, paq_conf=p, kq_conf=kconf())(h)
        return [H.HQuantize(paq_conf=p)(d), H.HDense(1, activation='relu', paq_conf=p, kq_conf=kconf())(d)]

    def subq(xs, p, r):
        a, b = [H.HQuantize(paq_conf=p)(x) for x in xs]
        return H.HQuantize(paq_conf=p)(L.Subtract()([a, H.HActivation('relu', paq_conf=p)(b)]))

    def far(xs, p, r):
        h = H.HDense(2, paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=p)(xs[0]))
        return H.HDense(1, paq_conf=p, kq_conf=kconf())(H.PFlatten()(H.PReshape((1, 2))(h)))

    def cat(xs, p, r):
        a, b = [H.HQuantize(paq_conf=p)(x) for x in xs]
        return H.HActivation('relu', paq_conf=p)(H.PConcatenate()([H.HDense(1, paq_conf=p, kq_conf=kconf())(a), b]))

    def two(xs, p, r):
        return [H.HQuantize(paq_conf=p)(xs[0]), H.HDense(1, paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=dict(p, rnd_strategy=3))(xs[0]))]

    def act(xs, p, r):
        return H.HActivation(funcs()['bump'], paq_conf=p)(H.HDense(2, paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=p)(xs[0])))

    def act2(xs, p, r):
        h = H.HQuantize(paq_conf=p)(xs[0])
        return H.HAdd(paq_conf=p)([H.HActivation(funcs()['parab'], paq_conf=p)(h), H.HActivation('relu', paq_conf=p)(h)])

    def poold(xs, p, r):
        h = H.HConv1D(1, 2, paq_conf=p, kq_conf=kconf())(H.HQuantize(paq_conf=p)(xs[0]))
        return H.HDense(1, paq_conf=p, kq_conf=kconf())(H.PFlatten()(H.PMaxPooling1D(2)(h)))
    return dict(fan=([(2,)], fan), subq=([(2,), (2,)], subq), far=([(2,)], far), cat=([(1,), (2,)], cat), two=([(2,)], two), act=([(2,)], act), act2=([(2,)], act2), poold=([(5, 1)], poold))


class Registered(Harness):
    functions = ['to_proxy_model(skip_precision_reg=False)', 'register_qconf', 'get_config', 'get_config_wight_accum_result_bias', 'get_config_table_tablesize_result', 'get_result_kifRS', 'result_kifRS_layer_with_fusible_quantizer', 'derive_result_kifRS_from_next_quantizers', 'get_whatever_quantizer', 'get_produced_kif', 'get_requested_kif', 'merge_precision']
    bounds = 'inputs on the grid 2^-4 with |x| <= 4 (for the hardware emulation: those that keep all quantizers in their calibrated range); one model per harness with concrete seeded weights (multiples of 1/8), concrete seeded bitwidths incl. pruned elements, calibrated on 24 random inputs; both overflow modes'
    assumptions = ['the emulated hardware converts each layer result to the accumulator type and then to the result type registered for it, inputs included']
    max_paths = 2000

    def setup(self):
        import tensorflow as tf
        from HGQ import trace_minmax, to_proxy_model
        from HGQ.layers.base import ABSBaseLayer
        ABSBaseLayer.input_bw = property(lambda l: None)
        rng = np.random.default_rng(self.seed)
        if self.net in extra():
            self.shapes, f = extra()[self.net]
            xs = [tf.keras.layers.Input(s) for s in self.shapes]
            self.m = tf.keras.Model(xs if len(xs) > 1 else xs[0], f(xs, conf(self.strat, self.skip), self.relu))
        else:
            self.m, self.shapes = build(self.net, self.strat, self.skip, self.relu)
        scramble(self.m, rng, self.f[0], self.f[1], prune=self.prune)
        cal = [np.round(rng.normal(0, 1.5, (24,) + s).clip(-4, 4) * 16).astype('float32') / 16 for s in self.shapes]
        trace_minmax(self.m, cal if len(cal) > 1 else cal[0], verbose=False, no_bops_computation=True)
        for l in hlayers(self.m):
            l.record_minmax = False
        self.rng0 = [(l, l.paq._min.numpy(), l.paq._max.numpy()) for l in hlayers(self.m)]
        self.p0 = to_proxy_model(self.m, aggressive=self.aggr)
        self.p1 = to_proxy_model(self.m, aggressive=self.aggr, skip_precision_reg=False)
        self.reg = {}
        for l in self.p1.layers:
            for n, c in (getattr(l, 'overrides', None) or {}).get('layers', {}).items():
                self.reg.setdefault(n, {}).update(c)
        self.missing = [l.name for l in self.p1.layers if 'result_t' not in self.reg.get(l.name, {})]
        self.weights_ok = True
        for l in self.p1.layers:
            if hasattr(l, 'kernel') and l.name not in self.missing:
                w = l.kernel.numpy()
                self.weights_ok &= all(core.unb(eq(a, b)) is True for a, b in zip(A(w).reshape(-1), A(quantize(w, self.reg[l.name]['weight_t'])).reshape(-1)))

    def inputs(self, v):
        return {f'x{i}': v.dyadic(f'x{i}', (1,) + s, -4, -64, 64) for i, s in enumerate(self.shapes)}

    def emulate(self, xs):
        """every layer result converted to the registered types; quantizer results are compared with the proxy one by one, each from the proxy's results before it"""
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer as Q
        val, ref, pairs = {}, {}, []
        for t, x in zip(self.p1.inputs, xs):
            val[id(t)] = quantize(x, self.reg[t._keras_history.layer.name]['result_t'])
            ref[id(t)] = x
        for depth in sorted(self.p1._nodes_by_depth, reverse=True):
            for node in self.p1._nodes_by_depth[depth]:
                if node.is_input:
                    continue
                a = [val[id(t)] for t in node.keras_inputs]
                y = node.layer(a if len(a) > 1 else a[0])
                a = [ref[id(t)] for t in node.keras_inputs]
                z = node.layer(a if len(a) > 1 else a[0])
                c = self.reg[node.layer.name]
                for n in ('accum_t', 'table_t', 'result_t'):
                    if n in c:
                        y = quantize(y, c[n])
                t = id(node.outputs)
                val[t], ref[t] = y, z
                if isinstance(node.layer, Q):
                    k, b, i, _, _ = parse(c['result_t'])
                    qk, qi, qf = node.layer.result_t_kif
                    if k >= qk and i - k >= qi and b - i >= qf:      # nothing may be lost here: compare, and go on from the proxy's value
                        pairs.append((y, z))
                        val[t] = z
        return pairs + [(val[id(t)], ref[id(t)]) for t in self.p1.outputs if val[id(t)] is not ref[id(t)]]

    def run(self, ins):
        xs = [ins[f'x{i}'] for i in range(len(self.shapes))]
        x = xs if len(xs) > 1 else xs[0]
        tup = lambda y: list(y) if isinstance(y, (list, tuple)) else [y]  # noqa: E731
        outs = {}
        for n, ys in (('before', tup(self.p0(x))), ('after', tup(self.p1(x)))):
            outs.update({f'{n}{i}': y for i, y in enumerate(ys)})
        for i, (y, z) in enumerate(self.emulate(xs) if not self.missing else []):
            outs[f'hw{i}'], outs[f'ref{i}'] = y, z
        for l, a, b in self.rng0:
            l.record_minmax = True
            put(l.paq._min, a)
            put(l.paq._max, b)
        try:
            self.m(x, training=False)
        finally:
            for l, a, b in self.rng0:
                l.record_minmax = False
        for i, (l, a, b) in enumerate(self.rng0):
            outs[f'mn{i}'], outs[f'mx{i}'] = get(l.paq._min), get(l.paq._max)
            put(l.paq._min, a)
            put(l.paq._max, b)
        return outs

    def prop(self, ins, outs):
        inr = []
        for i, (l, a, b) in enumerate(self.rng0):
            for u, w in ((A(outs[f'mn{i}']), A(a)), (A(outs[f'mx{i}']), A(b))):
                inr += [core.unb(eq(s, t)) for s, t in zip(u.reshape(-1), w.reshape(-1))]
        inr = b_and(*inr)
        n = len(self.p0.outputs)
        return [('every layer has a registered precision', not self.missing), ('weights fit their registered type', bool(self.weights_ok)),
                ('registering leaves the outputs of the proxy as they are', b_and(*[core.unb(eq_arr(outs[f'after{i}'], outs[f'before{i}'])) for i in range(n)]))] + [(f'hardware with the registered types gives the same values ({n[2:]})', b_implies(inr, core.unb(eq_arr(outs[n], outs['ref' + n[2:]])))) for n in outs if n.startswith('hw')]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    box = (-2, 4) if T else (-1, 2)
    for R in ('TRN', 'RND'):
        for S in ('WRAP', 'SAT'):
            hs.append(Merge(f'merge[{R},{S}]', modes=[(R, S)], via='none', n=1, box=box))
            for n in (1, 2) if T else ((2,) if (R, S) == ('RND', 'WRAP') else (1,)):
                hs.append(Requant(f'requant[{R},{S},{n}]', R=R, S=S, n=n, box=(-2, 3) if T else (0, 1) if n == 2 else (-1, 1), cost=4))
    hs += [First(f'first[{R},{S}]', R=R, S=S) for R, S in (('TRN', 'WRAP'), ('RND', 'SAT'))]
    for via in ('flatten', 'reshape', 'concat'):
        hs.append(Merge(f'merge[{via}]', modes=[('RND', 'WRAP')], via=via, n=1, box=(-1, 2) if T else (0, 1)))
    hs.append(Merge('merge[two]', modes=[('RND', 'WRAP'), ('TRN', 'WRAP')], via='none', n=1, box=(-1, 2) if T else (0, 1)))
    hs.append(Merge('merge[mixed]', modes=[('TRN', 'SAT'), ('RND', 'WRAP')], via='none', n=1, box=(-1, 2) if T else (0, 1)))
    hs.append(Merge('merge[heterogeneous]', modes=[('RND', 'WRAP')], via='none', n=2, box=(-1, 2) if T else (0, 1)))
    U, I, F, Z = (0, 1, 1), (1, 1, 0), (1, 0, 2), (0, 2, -1)
    P = lambda n, kind, shapes, types, wbox=(-4, 4), bbox=(-9, 9), **a: hs.append(Produced(f'{kind}{n}', kind=(kind, a), shapes=shapes, types=types, wbox=wbox, bbox=bbox))  # noqa: E731
    for n, t in enumerate([U, I, F, Z]):
        P(f'[1,{t}]', 'Dense', [(1,)], [t], units=1, bbox=(-9, 9) if T else (-4, 5))
        P(f'[nobias,{t}]', 'Dense', [(1,)], [t], units=1, use_bias=False, wbox=(-8, 8))
    P('[2x1]', 'Dense', [(2,)], [I], units=1, wbox=(-2, 2), bbox=(-3, 3))
    P('[1x2]', 'Dense', [(1,)], [U], units=2, wbox=(-2, 2) if T else (-1, 1), bbox=(-3, 3) if T else (-1, 1))
    P('[3x1]', 'Dense', [(3,)], [I], units=1, use_bias=False, wbox=(-2, 2))
    for n in (3, 5):
        P(f'[{n} wide]', 'Dense', [(n,)], [(0, 2, 2)], units=1, wbox=(13, 15), use_bias=False)
    P('[3 wide]', 'Conv1D', [(3, 1)], [(0, 2, 2)], filters=1, kernel_size=3, wbox=(13, 15), bbox=(0, 1))
    P('[]', 'Conv1D', [(3, 1)], [I], filters=1, kernel_size=2, wbox=(-2, 2), bbox=(-2, 2))
    P('[same]', 'Conv1D', [(2, 1)], [U], filters=1, kernel_size=2, padding='same', wbox=(-2, 2), bbox=(-2, 2))
    P('[]', 'Conv2D', [(2, 2, 1)], [I], filters=1, kernel_size=(2, 1), wbox=(-2, 2), use_bias=False)
    for a in ([U, U], [I, F], [U, Z, F], [I, I, I], [I, F, I, F]):
        P(f'{a}', 'Add', [(1,)] * len(a), a)
        P(f'{a}', 'Concatenate', [(1,)] * len(a), a)
        if len(a) == 2:
            P(f'{a}', 'Subtract', [(2,)] * 2, a)
    for a in ([U, U], [I, F], [I, I], [U, I], [Z, F]):
        for n in (1, 2, 3):
            P(f'{a}{n}', 'Dot', [(n,)] * 2, a, axes=-1 if n == 2 else 1)
    for t in (U, I, F, Z):
        for w in (2, 4):
            P(f'[{w},{t}]', 'AveragePooling1D', [(5, 1)], [t], pool_size=w, strides=1)
        P(f'[{t}]', 'AveragePooling2D', [(2, 3, 1)], [t], pool_size=(2, 2), strides=1)
        P(f'[{t}]', 'MaxPooling1D', [(3, 1)], [t], pool_size=2, strides=1)
        P(f'[{t}]', 'Flatten', [(2, 1)], [t])
        P(f'[{t}]', 'Permute', [(2, 1)], [t], dims=(2, 1))
        P(f'[{t}]', 'ReLU', [(2,)], [t])
        P(f'[{t}]', 'Activation', [(2,)], [t], fn='relu')
        for fn in ('parab', 'bump', 'steps', 'hard'):
            P(f'[{fn},{t}]', 'Activation', [(2,)], [t], fn=fn)
    nets = ['dense', 'dense_nobias', 'deep', 'bn', 'conv1', 'conv1_same', 'conv2', 'convbn', 'add', 'quantize', 'shuffle', 'concat', 'maxpool', 'avgpool', 'fan', 'subq', 'far', 'cat', 'two', 'act', 'act2', 'poold']
    n = 0
    for i, net in enumerate(nets):
        for skip in ((0,), 'all'):
            for aggr in (True, False):
                for strat in (0, 3) if T else ((0, 3)[(i + aggr) % 2],) if net != 'dense_nobias' else (0,):
                    for rep in range(2 if T else 1):
                        n += 1
                        if T or net not in ('conv2', 'poold') and ((i + (skip == 'all') + aggr) % 2 == 0 or i in (1, 14, 15, 16, 17)):
                            hs.append(Registered(f'{net}[{skip},{"WRAP" if aggr else "SAT"},{strat},{rep}]', net=net, skip=skip, aggr=aggr, strat=strat, relu=n % 2, f=(0, 2), seed=n, prune=True, cost=2))
    return hs
