import numpy as np

from .oracle import *


def weights(m, rng):
    """distinct small integer weights, so that no two paths through the network compute the same function"""
    for w in m.weights:
        if 'kernel:0' in w.name or 'bias:0' in w.name:
            v = rng.integers(1, 4, w.shape) * rng.choice([-1, 1], w.shape)
            w.assign(v.astype('float32'))


def topologies(K, H):
    """hand-written topologies over K (stock layers); every one returns (inputs, outputs)"""
    import tensorflow as tf
    I, M = K.Input, tf.keras.Model
    T = {}

    def t(f):
        T[f.__name__] = f
        return f
    D_ = lambda n=2, **k: K.Dense(n, **k)  # noqa: E731

    @t
    def chain():
        x = I((2,))
        return [x], [D_()(K.ReLU()(D_()(x)))]

    @t
    def reused_twice():
        x, d = I((2,)), D_()
        return [x], [d(K.ReLU()(d(x)))]

    @t
    def reused_siamese():
        a, b, d = I((2,)), I((2,)), D_()
        return [a, b], [K.Subtract()([d(a), d(b)])]

    @t
    def siamese_swapped():
        a, b, d = I((2,)), I((2,)), D_()
        return [b, a], [K.Subtract()([d(a), d(b)]), d(b)]

    @t
    def subtract_order():
        a, b = I((2,)), I((2,))
        return [a, b], [K.Subtract()([b, a])]

    @t
    def concat_order():
        a, b, c = I((1,)), I((1,)), I((2,))
        return [a, b, c], [K.Concatenate()([c, a, b, a])]

    @t
    def same_tensor_twice():
        a, b = I((2,)), I((2,))
        h = D_()(a)
        return [a, b], [K.Concatenate()([h, b, h]), h, h]

    @t
    def outputs_order():
        x = I((2,))
        h = D_()(x)
        g = D_()(h)
        return [x], [g, h, D_()(g), g]

    @t
    def residual():
        x = I((2,))
        h = D_()(x)
        g = D_()(K.ReLU()(h))
        return [x], [K.Subtract()([h, K.Add()([g, h])])]

    @t
    def diamond():
        x = I((2,))
        h = K.ReLU()(x)
        a, b = D_()(h), D_()(h)
        c = K.Subtract()([b, a])
        return [x], [K.Concatenate()([a, c]), K.Subtract()([c, b])]

    @t
    def dropout_linear():
        x = I((2,))
        h = K.Dropout(.5)(x)
        g = K.Activation('linear')(D_()(h))
        return [x], [K.Dropout(.3)(K.Subtract()([g, h])), K.Activation(tf.keras.activations.linear)(h), g]

    @t
    def dropout_first_last():
        a, b = I((2,)), I((2,))
        d = K.Dropout(.5)
        return [a, b], [d(K.Subtract()([d(b), a]))]

    @t
    def nested():
        x, y = I((2,)), I((2,))
        inner = M(y, K.ReLU()(D_()(y)))
        return [x], [K.Subtract()([D_()(inner(x)), x])]

    @t
    def nested_reused():
        a, b, y = I((2,)), I((2,)), I((2,))
        inner = M(y, K.ReLU()(D_()(y)))
        return [a, b], [K.Subtract()([inner(a), inner(inner(b))])]

    @t
    def nested_multi_in():
        a, b, u, v = I((2,)), I((2,)), I((2,)), I((2,))
        inner = M([u, v], K.Subtract()([D_()(v), u]))
        return [a, b], [inner([b, a]), inner([a, b])]

    @t
    def nested_multi_out():
        x, y = I((2,)), I((2,))
        h = D_()(y)
        inner = M(y, [h, K.ReLU()(h), D_()(h)])
        p, q, r = inner(x)
        return [x], [K.Subtract()([r, p]), q]

    @t
    def nested_multi_out_used_as_output():
        x, y = I((2,)), I((2,))
        h = D_()(y)
        inner = M(y, [h, D_()(h)])
        p, q = inner(x)
        return [x], [q, p]

    @t
    def nested_deep():
        x, y, z = I((2,)), I((2,)), I((2,))
        in1 = M(z, D_()(z))
        in2 = M(y, [K.Subtract()([in1(y), y]), K.ReLU()(in1(y))])
        p, q = in2(x)
        return [x], [K.Subtract()([p, in1(q)])]

    @t
    def sequential_inside():
        x = I((2,))
        s = tf.keras.Sequential([K.Input((2,)), D_(), K.ReLU(), D_()])
        return [x], [K.Subtract()([s(x), s(D_()(x))])]

    @t
    def shared_with_other_model():
        x, o = I((2,)), I((2,))
        d, e = D_(), D_()
        other = M(o, d(e(o)))  # noqa: F841   same layers in another model, in another order
        return [x], [K.Subtract()([e(d(x)), d(x)])]

    @t
    def cut_in_the_middle():
        x = I((2,))
        h = D_()(x)
        g = K.ReLU()(D_()(h))
        M(x, D_()(g))
        return [h], [K.Subtract()([g, h])]

    @t
    def shapes():
        x = I((2, 2))
        h = K.Permute((2, 1))(x)
        return [x], [K.Flatten()(K.Subtract()([h, x])), K.Reshape((4,))(h)]

    @t
    def many_inputs():
        xs = [I((1,)) for _ in range(4)]
        s = K.Subtract()([xs[3], xs[0]])
        r = K.Subtract()([xs[1], xs[2]])
        return xs, [K.Concatenate()([r, s]), s, K.Subtract()([s, r])]
    return T


def random_topology(seed):
    """seeded random network over (2,)-tensors: reuse, merges, nesting, dropout, several inputs and outputs"""
    import tensorflow as tf
    K = tf.keras.layers
    rng = np.random.default_rng(seed)

    def grow(ins, n, depth):
        ts, shared = list(ins), [K.Dense(2), K.Dense(2)]
        subs = []
        for _ in range(n):
            pick = lambda: ts[rng.integers(len(ts))]  # noqa: E731
            op = rng.integers(9 if depth else 8)
            if op == 0:
                t = K.Dense(2)(pick())
            elif op == 1:
                t = shared[rng.integers(2)](pick())
            elif op == 2:
                t = K.Subtract()([pick(), pick()])
            elif op == 3:
                t = K.Dense(2)(K.Concatenate()([pick(), pick(), pick()]))
            elif op == 4:
                t = K.Dropout(.5)(pick())
            elif op == 5:
                t = K.Activation('linear')(pick())
            elif op == 6:
                t = K.ReLU()(pick())
            elif op == 7:
                t = K.Add()([pick(), pick()])
            else:
                if not subs or rng.random() < .5:
                    k = int(rng.integers(1, 3))
                    i2 = [K.Input((2,)) for _ in range(k)]
                    o2 = grow(i2, int(rng.integers(1, 4)), depth - 1)
                    subs.append((k, tf.keras.Model(i2, o2)))
                k, m = subs[rng.integers(len(subs))]
                r = m([pick() for _ in range(k)])
                r = r if isinstance(r, (list, tuple)) else [r]
                ts.extend(r[:-1])
                t = r[-1]
            ts.append(t)
        no = int(rng.integers(1, 4))
        return [ts[-1]] + [ts[rng.integers(len(ins), len(ts))] for _ in range(no - 1)]
    ins = [K.Input((2,)) for _ in range(int(rng.integers(1, 4)))]
    return ins, grow(ins, 6, 2)


class Wiring(Harness):
    functions = ['HGQ.proxy.convert.convert_model', 'apply_layer', '_get_out_tensor', 'solve_dependencies', 'get_all_nodes', 'Namer', 'ProxyLayerXFormer for stock, dropout and linear layers']
    bounds = 'every input on the grid 1/4 with |x| <= 8; one network per harness with distinct concrete integer weights; all outputs compared'
    max_paths = 500

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy.convert import convert_model, to_proxy_model
        rng = np.random.default_rng(7)
        if self.topo is None:
            i, o = random_topology(self.seed)
        else:
            i, o = topologies(tf.keras.layers, None)[self.topo]()
        self.n = len(o)
        self.m = tf.keras.Model(i if len(i) > 1 else i[0], o if len(o) > 1 else o[0])
        weights(self.m, rng)
        self.shapes = [tuple(t.shape[1:]) for t in self.m.inputs]
        self.c = convert_model(self.m) if self.how == 'flatten' else to_proxy_model(self.m)

    def inputs(self, v):
        return {f'x{i}': v.dyadic(f'x{i}', (1,) + s, -2, -32, 32) for i, s in enumerate(self.shapes)}

    def run(self, ins):
        x = [ins[f'x{i}'] for i in range(len(self.shapes))]
        x = x if len(x) > 1 else x[0]
        outs = {}
        for nm, m in (('y', self.m), ('c', self.c)):
            r = m(x)
            r = list(r) if isinstance(r, (list, tuple)) else [r]
            outs[nm + 'n'] = np.int32(len(r))
            for i, t in enumerate(r):
                outs[f'{nm}{i}'] = t
        return outs

    def prop(self, ins, outs):
        ny, nc = int(outs['yn']), int(outs['cn'])
        r = [('the number of outputs is kept', ny == nc == self.n),
             ('nested models and removed layers do not appear in the result', self.flat())]
        for i in range(min(ny, nc)):
            r.append((f'output {i} is the same function of the inputs', eq_arr(outs[f'c{i}'], outs[f'y{i}'])))
        return r

    def flat(self):
        import tensorflow as tf
        ls = self.c.layers
        names = [l.name for l in ls]
        if any(isinstance(l, tf.keras.Model) for l in ls) or len(set(names)) != len(names):
            return False
        if self.how == 'flatten':
            return True
        return not any(isinstance(l, tf.keras.layers.Dropout) or isinstance(l, tf.keras.layers.Activation) and l.activation is tf.keras.activations.linear for l in ls)


def hgq_topologies():
    import tensorflow as tf
    import HGQ.layers as H
    I, M = tf.keras.layers.Input, tf.keras.Model
    T = {}

    def t(f):
        T[f.__name__] = f
        return f

    @t
    def two_heads():
        x = I((2,))
        h = H.HQuantize()(x)
        a = H.HDense(2, activation='relu')(h)
        b = H.HDense(2)(h)
        return [x], [b, H.HAdd()([a, b]), a]

    @t
    def two_inputs_swapped():
        a, b = I((2,)), I((1,))
        c = H.PConcatenate()([H.HQuantize()(b), H.HQuantize()(a)])
        return [b, a], [H.HDense(2)(H.PDropout(.5)(c)), c]

    @t
    def nested_h():
        x, y = I((2,)), I((2,))
        h = H.HDense(2, activation='relu')(y)
        inner = M(y, [h, H.HDense(1)(h)])
        p, q = inner(H.HQuantize()(x))
        return [x], [H.PConcatenate()([q, p])]

    @t
    def nested_h_swapped():
        u, v, a, b = I((2,)), I((1,)), I((1,)), I((2,))
        inner = M([u, v], H.PConcatenate()([v, u]))
        c = inner([H.HQuantize()(b), H.HQuantize()(a)])
        return [a, b], [H.HDense(2)(c), c]

    @t
    def shuffle():
        x = I((4,))
        h = H.PPermute((2, 1))(H.PReshape((2, 2))(H.HQuantize()(x)))
        return [x], [H.PFlatten()(h), H.HDense(2)(H.PFlatten()(h)), h]

    @t
    def residual_h():
        x = I((2,))
        h = H.HQuantize()(x)
        g = H.HDense(2)(h)
        return [x], [H.HAdd()([h, g]), H.PConcatenate()([g, h, g])]

    @t
    def mixed():
        x = I((2,))
        h = H.HQuantize()(x)
        g = tf.keras.layers.Activation('linear')(H.HDense(2)(tf.keras.layers.Dropout(.2)(h)))
        return [x], [H.HActivation('relu')(g), H.HActivation('linear')(h)]
    return T


class Proxy(Wiring):
    functions = Wiring.functions + ['ProxyLayerXFormer for every HGQ layer used']
    bounds = 'every input on the grid 1/4 with |x| <= 8; quantizers wide enough to be exact for all of them (9 integer, 4 fractional bits); integer weights'
    how = 'proxy'

    def setup(self):
        import tensorflow as tf
        from HGQ.layers.base import ABSBaseLayer, HLayerBase
        from HGQ.proxy.convert import to_proxy_model
        ABSBaseLayer.input_bw = property(lambda l: None)
        i, o = hgq_topologies()[self.topo]()
        self.n = len(o)
        self.m = tf.keras.Model(i if len(i) > 1 else i[0], o if len(o) > 1 else o[0])
        weights(self.m, np.random.default_rng(7))

        def flat(m):
            for l in m.layers:
                yield from flat(l) if isinstance(l, tf.keras.Model) else [l]
        for l in flat(self.m):
            if isinstance(l, HLayerBase):
                l.paq.fbw.assign(np.full(l.paq.fbw.shape, 4, 'float32'))
                l.paq._min.assign(np.full(l.paq._min.shape, -512, 'float32'))
                l.paq._max.assign(np.full(l.paq._max.shape, 511, 'float32'))
                if hasattr(l, 'kq'):
                    l.kq.fbw.assign(np.full(l.kq.fbw.shape, 3, 'float32'))
        self.shapes = [tuple(t.shape[1:]) for t in self.m.inputs]
        self.c = to_proxy_model(self.m, aggressive=self.aggr)


def harnesses(tier):
    import tensorflow as tf
    T = tier == 'thorough'
    hs = []
    for t in topologies(tf.keras.layers, None):
        for how in ('flatten', 'proxy'):
            hs.append(Wiring(f'{t}[{how}]', topo=t, how=how))
    for s in range(40 if not T else 300):
        hs.append(Wiring(f'random {s}', topo=None, seed=s, how=('flatten', 'proxy')[s % 2]))
    for t in hgq_topologies():
        for aggr in (True, False) if T else (True,):
            hs.append(Proxy(f'HGQ {t}[{aggr}]', topo=t, aggr=aggr))
    return hs
