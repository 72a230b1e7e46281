import numpy as np

from .oracle import *
from .c08 import conf, kconf
from .c12 import source


def origins(kind, shapes, opt):
    """For every output element the (input, flat position) pairs it is computed from, written from the definition of each operation."""
    ids = [(1000 * i + np.arange(int(np.prod(s)))).reshape(s) for i, s in enumerate(shapes)]
    x = ids[0]
    one = np.frompyfunc(lambda a: [divmod(int(a), 1000)], 1, 1)
    if kind in ('reshape', 'flatten', 'dropout'):
        return one(x.reshape({'reshape': opt.get('target_shape'), 'flatten': (-1,), 'dropout': x.shape}[kind]))
    if kind == 'permute':
        out = np.empty([x.shape[d - 1] for d in opt['dims']], dtype=object)
        for pos in np.ndindex(*x.shape):
            out[tuple(pos[d - 1] for d in opt['dims'])] = [(0, int(x[pos]))]
        return out
    if kind == 'concat':
        ax = opt.get('axis', -1)
        ax = ax - 1 if ax > 0 else ax + x.ndim
        rows = []
        for y in ids:
            rows += [y.take(i, axis=ax) for i in range(y.shape[ax])]
        return one(np.stack(rows, axis=ax))
    rank = x.ndim - 1
    tup = lambda v: (v,) * rank if isinstance(v, int) else tuple(v)  # noqa: E731
    ks, st = tup(opt['pool_size']), tup(opt.get('strides') or opt['pool_size'])
    n = x.shape[:rank]
    if opt.get('padding') == 'same':
        out = [-(-a // s) for a, s in zip(n, st)]
        lo = [max((o - 1) * s + k - a, 0) // 2 for o, s, k, a in zip(out, st, ks, n)]
    else:
        out, lo = [(a - k) // s + 1 for a, k, s in zip(n, ks, st)], [0] * rank
    r = np.empty(tuple(out) + x.shape[-1:], dtype=object)
    for o in np.ndindex(*out):
        for c in range(x.shape[-1]):
            ps = [tuple(o[d] * st[d] - lo[d] + k[d] for d in range(rank)) + (c,) for k in np.ndindex(*ks)]
            r[o + (c,)] = [(0, int(x[p])) for p in ps if all(0 <= p[d] < n[d] for d in range(rank))]
    return r


def expect(kind, ws, opt):
    """widths of the output from the widths of the inputs"""
    o = origins(kind, [w.shape for w in ws], opt)
    flat = [w.reshape(-1) for w in ws]

    def f(srcs):
        r = None
        for i, p in srcs:
            r = flat[i][p] if r is None else maximum(r, flat[i][p])
        return r
    out = np.empty(o.shape, dtype=object)
    for pos in np.ndindex(*o.shape):
        out[pos] = f(o[pos])
    return out


def make(kind, opt):
    import HGQ.layers as H
    return dict(reshape=H.PReshape, flatten=H.PFlatten, permute=H.PPermute, concat=H.PConcatenate, dropout=H.PDropout, max1=H.PMaxPooling1D, avg1=H.PAveragePooling1D,
                max2=H.PMaxPooling2D, avg2=H.PAveragePooling2D)[kind](**opt)


class Widths(Harness):
    """chain of passive layers behind layers with arbitrary widths"""
    functions = ['PLayerBase.act_bw', 'PLayerBase.act_bw_exact', 'PConcatenate.act_bw/act_bw_exact/input_bw', 'PPermute.act_bw/act_bw_exact', 'PPool1D/2D.act_bw/act_bw_exact', 'ABSBaseLayer.input_bw/input_bw_exact']
    bounds = 'input bitwidths any integers 0..30 per element; shapes up to 12 elements; chains of up to 3 passive layers'

    def setup(self):
        import tensorflow as tf
        ins = [tf.keras.layers.Input(s) for s in self.shapes]
        self.src = [source(s) for s in self.shapes]
        hs = [l(x) for l, x in zip(self.src, ins)]
        self.ls = [make(k, o) for k, o in self.chain]
        h = self.ls[0](hs if self.chain[0][0] == 'concat' else hs[0])
        for l in self.ls[1:]:
            h = l(h)
        self.out = tuple(h.shape[1:])

    def inputs(self, v):
        return {f'w{i}': v.dyadic(f'w{i}', (1,) + s, 0, 0, 30) for i, s in enumerate(self.shapes)}

    def run(self, ins):
        for i, s in enumerate(self.src):
            put(s.bw, ins[f'w{i}'])
        l = self.ls[-1]
        return dict(est=tf_call(lambda: l.act_bw), exact=l.act_bw_exact)

    def prop(self, ins, outs):
        ws = [A(ins[f'w{i}'])[0] for i in range(len(self.shapes))]
        for k, o in self.chain:
            ws = [expect(k, ws, o)]
        e = ws[0][None]
        return [('reported widths have the shape of the output', e.shape[1:] == self.out), ('exact widths follow the data', eq_arr(outs['exact'], e)), ('differentiable widths follow the data', eq_arr(outs['est'], e))]


class Data(Harness):
    """the data itself takes the same way: values at inference"""
    functions = ['call of the passive layers']
    bounds = 'inputs multiples of 1/4 with |x| <= 8; shapes up to 12 elements'

    def setup(self):
        import tensorflow as tf
        ins = [tf.keras.layers.Input(s) for s in self.shapes]
        self.l = make(self.kind, self.opt)
        self.m = tf.keras.Model(ins, self.l(ins if self.kind == 'concat' else ins[0]))

    def inputs(self, v):
        return {f'x{i}': v.dyadic(f'x{i}', (1,) + s, -2, -32, 32) for i, s in enumerate(self.shapes)}

    def run(self, ins):
        xs = [ins[k] for k in sorted(ins)]
        return dict(y=self.m(xs if len(xs) > 1 else xs[0], training=False))

    def prop(self, ins, outs):
        xs = [A(ins[k])[0] for k in sorted(ins)]
        o = origins(self.kind, self.shapes, self.opt)
        flat = [x.reshape(-1) for x in xs]
        out = np.empty(o.shape, dtype=object)
        for pos in np.ndindex(*o.shape):
            vs = [flat[i][p] for i, p in o[pos]]
            r = vs[0]
            for v in vs[1:]:
                r = add(r, v, N) if self.kind.startswith('avg') else maximum(r, v)
            out[pos] = div(r, D(len(vs), 0), N) if self.kind.startswith('avg') else r
        return [('the data moves as the widths do', eq_arr(outs['y'], out[None]))]


class Sig(Harness):
    functions = ['Signature.act_bw', 'Signature.act_bw_exact', 'Signature.build']
    bounds = 'declared widths any integers 0..30 per tensor (thorough: per row); one path per value; one passive layer behind'

    def inputs(self, v):
        return dict(w=v.dyadic('w', self.dshape, 0, 0, 30))

    def run(self, ins):
        import tensorflow as tf
        import HGQ.layers as H
        from hgqsym import core
        w = A(ins['w'])
        bits = np.array([int(core.ctx_concrete(a)) for a in w.reshape(-1)], dtype='int8').reshape(w.shape)
        s = H.Signature(np.ones(self.dshape, 'int8') if self.dshape else 1, bits.tolist(), bits.tolist())
        l = make('permute', dict(dims=(2, 1)))
        l(s(tf.keras.layers.Input((2, 3))))
        return dict(e=s.act_bw_exact, d=tf_call(lambda: s.act_bw), pe=l.act_bw_exact, pd=tf_call(lambda: l.act_bw))

    def prop(self, ins, outs):
        w = np.broadcast_to(A(ins['w']), (1, 2, 3))
        t = w.transpose(0, 2, 1)
        return [('declared exact', eq_arr(outs['e'], w)), ('declared differentiable', eq_arr(outs['d'], w)), ('moved exact', eq_arr(outs['pe'], t)), ('moved differentiable', eq_arr(outs['pd'], t))]


class Behind(Harness):
    """a quantized layer with recorded ranges in front: what it reports is what arrives behind the passive layers"""
    functions = ['HLayerBase.act_bw_exact', 'HLayerBase.act_bw', 'PLayerBase.act_bw_exact']
    bounds = 'HQuantize with per-element or shared bitwidths; recorded range multiples of 1/2 with |x| <= 4 (two symbolic elements); fractional bits 1..2'
    assumptions = ['the logarithm is correct at and next to powers of two inside the bounds']

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        self.q = H.HQuantize(paq_conf=conf(3, self.skip))
        self.l = make(self.kind, self.opt)
        self.l(self.q(tf.keras.layers.Input((2, 2))))
        r = self.q.paq
        self.n = int(np.prod(r.fbw.shape))
        self.shape = tuple(r.fbw.shape)
        rng = np.random.default_rng(1)
        self.mx = rng.integers(0, 8, self.shape) / 2.
        self.mn = -rng.integers(0, 8, self.shape) / 2.
        r.fbw.assign(rng.integers(1, 3, self.shape).astype('float32'))

    def inputs(self, v):
        return dict(mx=v.dyadic('mx', (), -1, 0, 8), mn=v.dyadic('mn', (), -1, -8, 0))

    def run(self, ins):
        from .c10 import cst, back
        mx, mn = cst(self.mx.astype('float32')).reshape(-1), cst(self.mn.astype('float32')).reshape(-1)
        mx[-1], mn[0] = A(ins['mx']).item(), A(ins['mn']).item()
        put(self.q.paq._max, back(mx.reshape(self.shape), None))
        put(self.q.paq._min, back(mn.reshape(self.shape), None))
        return dict(qe=self.q.act_bw_exact, qd=tf_call(lambda: self.q.act_bw), le=self.l.act_bw_exact, ld=tf_call(lambda: self.l.act_bw))

    def prop(self, ins, outs):
        e, d = (expect(self.kind, [A(outs[k])[0]], self.opt)[None] for k in ('qe', 'qd'))
        shared = True
        if self.skip != 'batch':
            a, b = A(outs['qe']), A(outs['qd'])
            shared = b_and(*[eq(u, v) for z in (a, b) for u, v in zip(z.reshape(-1), np.broadcast_to(z[:, :1], z.shape).reshape(-1))]) if self.skip == (0, 1) else True
        return [('exact widths', eq_arr(outs['le'], e)), ('differentiable widths', eq_arr(outs['ld'], d)), ('a shared bitwidth is reported for every element sharing it', shared)]


def harnesses(tier):
    T = tier == 'thorough'
    cases = [('reshape', [(6,)], dict(target_shape=(2, 3))), ('reshape', [(2, 3)], dict(target_shape=(3, 2))), ('reshape', [(2, 2, 2)], dict(target_shape=(4, -1))), ('flatten', [(2, 3)], {}), ('flatten', [(2, 2, 2)], {}), ('flatten', [(4,)], {}),
             ('permute', [(2, 3)], dict(dims=(2, 1))), ('permute', [(2, 1, 3)], dict(dims=(3, 1, 2))), ('permute', [(2, 3, 2)], dict(dims=(2, 3, 1))), ('permute', [(2, 2, 2)], dict(dims=(1, 3, 2))), ('permute', [(2, 2)], dict(dims=(1, 2))),
             ('concat', [(2,), (3,)], {}), ('concat', [(2, 2), (2, 1)], {}), ('concat', [(1, 2), (2, 2)], dict(axis=1)), ('concat', [(1, 2), (2, 2), (1, 2)], dict(axis=-2)), ('concat', [(2, 1, 2), (2, 1, 1)], dict(axis=3)), ('concat', [(2, 2), (2, 2)], dict(axis=1)),
             ('dropout', [(4,)], dict(rate=.5)), ('dropout', [(2, 2)], dict(rate=.25))]
    for p in ('max', 'avg'):
        cases += [(p + '1', [(4, 2)], dict(pool_size=2)), (p + '1', [(5, 1)], dict(pool_size=2, strides=1)), (p + '1', [(5, 2)], dict(pool_size=2, padding='same')), (p + '1', [(5, 1)], dict(pool_size=4, strides=2, padding='same')), (p + '1', [(5, 1)], dict(pool_size=2)),
                  (p + '2', [(4, 2, 1)], dict(pool_size=2)), (p + '2', [(3, 3, 1)], dict(pool_size=(2, 1), strides=(1, 2))), (p + '2', [(3, 3, 1)], dict(pool_size=2, padding='same')), (p + '2', [(2, 3, 2)], dict(pool_size=(1, 2), strides=(2, 1), padding='same'))]
    hs = []
    for k, s, o in cases:
        hs.append(Widths(f'widths {k}{s}{o}', shapes=s, chain=[(k, o)]))
        hs.append(Data(f'data {k}{s}{o}', kind=k, shapes=s, opt=o))
    chains = [([(2, 3)], [('permute', dict(dims=(2, 1))), ('flatten', {})]), ([(2, 3)], [('permute', dict(dims=(2, 1))), ('reshape', dict(target_shape=(2, 3))), ('permute', dict(dims=(2, 1)))]), ([(2, 1), (2, 2)], [('concat', {}), ('permute', dict(dims=(2, 1))), ('flatten', {})]),
              ([(4, 3)], [('max1', dict(pool_size=2)), ('permute', dict(dims=(2, 1))), ('dropout', dict(rate=.1))]), ([(2, 2, 2)], [('permute', dict(dims=(3, 1, 2))), ('avg2', dict(pool_size=(1, 2))), ('flatten', {})])]
    for i, (s, c) in enumerate(chains):
        hs.append(Widths(f'chain {i}', shapes=s, chain=c))
    hs += [Sig(f'signature {d}', dshape=d) for d in ((), (2, 1))[:2 if T else 1]]
    for skip in ('batch', 'all', (0, 1)):
        for k, o in (('permute', dict(dims=(2, 1))), ('flatten', {}), ('max1', dict(pool_size=2))):
            if T or k == 'permute' or skip == (0, 1):
                hs.append(Behind(f'behind {k} {skip}', kind=k, opt=o, skip=skip, cost=1))
    return hs
