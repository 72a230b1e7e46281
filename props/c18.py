import warnings

import numpy as np

from .oracle import *
from .c07 import rnd

ZERO = D(0, 0)


def P(**k):
    return dict(k)


def quantizer(spec):
    import qkeras
    name, kw = spec
    return getattr(qkeras, name)(**kw)


def text(spec):
    name, kw = spec
    return f'{name}({",".join(f"{k}={v}" for k, v in kw.items())})'


def short(spec):
    name, kw = spec
    n = dict(quantized_bits='qb', quantized_relu='qr').get(name, name)
    return n + ''.join(f',{k}={v}' for k, v in kw.items() if k != 'alpha')


def fits(a, spec):
    """rounding a to the quantizer's grid stays in its range: even a wrapping quantizer must then agree"""
    name, kw = spec
    k = int(kw.get('keep_negative', name == 'quantized_bits'))
    b, i = kw['bits'], kw['integer']
    f = b - i - k
    t = rnd(mul(a, pow2(D(f, 0)), N), 'RND_CONV')
    m = 2 ** (b - k)
    return b_and(core.unb(le(D(-m * k, 0), t)), core.unb(le(t, D(m - 1, 0))))


class Quantizer(Harness):
    """one activation: input -> QActivation"""
    functions = ['qkeras_quantizer_to_layers', 'qlayer_to_proxy_layer', 'convert_model', 'FixedPointQuantizer.__init__', 'FixedPointQuantizer.call', 'gfixed_quantizer', 'qkeras.quantized_bits.__call__', 'qkeras.quantized_relu.__call__']
    bounds = 'two independent inputs, three binary digits below the resolution of the quantizer and up to four times its range; bits, integer bits, sign, symmetry, slope and upper bound as stated per harness'

    def setup(self):
        import tensorflow as tf
        import qkeras
        from HGQ import to_proxy_model
        L = tf.keras.layers
        x = L.Input((2,))
        q = quantizer(self.q)
        if self.how == 'qact':
            y = qkeras.QActivation(q)(x)
        elif self.how == 'string':
            y = qkeras.QActivation(text(self.q))(x)
        elif self.how == 'dense':
            l = qkeras.QDense(2, activation=q, use_bias=False)
            y = l(x)
            l.set_weights([np.eye(2, dtype='float32')])
        self.m = tf.keras.Model(x, y)
        self.p = to_proxy_model(self.m, aggressive=self.sat == 'WRAP')

    def inputs(self, v):
        kw = self.q[1]
        f = kw['bits'] - kw['integer'] - int(kw.get('keep_negative', self.q[0] == 'quantized_bits')) + 3
        m = 2 ** (kw['bits'] + 5)
        return dict(x=v.dyadic('x', (1, 2), -f, -m, m))

    def run(self, ins):
        return dict(qkeras=self.m(ins['x']), proxy=self.p(ins['x']))

    def prop(self, ins, outs):
        x, a, b = A(ins['x']).reshape(-1), A(outs['qkeras']).reshape(-1), A(outs['proxy']).reshape(-1)
        if len(a) != len(b):
            return [('shape', False)]
        cl = [b_implies(True if self.sat == 'SAT' or self.q[1].get('symmetric') or self.q[0] == 'quantized_relu' else fits(t, self.q), core.unb(teq(u, w))) for t, u, w in zip(x, a, b)]
        return [('the proxy computes what the QKeras quantizer computes', b_and(*cl))]


QB = lambda b, i, **k: ('quantized_bits', P(bits=b, integer=i, alpha=1, **k))  # noqa: E731
QR = lambda b, i, **k: ('quantized_relu', P(bits=b, integer=i, **k))  # noqa: E731


class Layer(Harness):
    """one layer with symbolic weights, converted after they are set"""
    functions = ['qlayer_to_keras_layer', 'qlayer_to_proxy_layer', 'ProxyLayerXFormer.__call__', 'qkeras_quantizer_to_layers', 'forward pass of the QKeras layer']
    bounds = 'every kernel and bias entry any multiple of the stated step below the resolution of its quantizer and beyond its range on both sides; concrete inputs that separate every kernel entry; layer sizes as stated'

    def setup(self):
        import tensorflow as tf
        import qkeras
        from HGQ.proxy.convert import ProxyLayerXFormer, to_proxy_model  # noqa: F401
        kw = {k: quantizer(v) if isinstance(v, tuple) and isinstance(v[0], str) else v for k, v in self.kw.items()}
        self.l = getattr(qkeras, self.kind)(**kw)
        x = tf.keras.layers.Input(self.shape)
        self.m = tf.keras.Model(x, self.l(x))
        self.to = lambda: to_proxy_model(self.m, aggressive=False)
        self.ws = list(self.l.weights)
        n = int(np.prod(self.shape))
        self.x = np.array([2. ** (j % 4 - 1) * (-1) ** (j % 3) for j in range(n)], 'float32').reshape((1,) + self.shape)

    def inputs(self, v):
        d = {}
        for j, w in enumerate(self.ws):
            d[f'w{j}'] = v.dyadic(f'w{j}', tuple(w.shape), -self.step, -self.lim, self.lim)
        if self.free:
            d['x'] = v.dyadic('x', (1,) + self.shape, -1, -2, 2)
        return d

    def run(self, ins):
        old = [w.numpy() for w in self.ws] if core.CTX is None else None
        for j, w in enumerate(self.ws):
            put(w, ins[f'w{j}'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            p = self.to()
        x = ins.get('x', self.x)
        r = dict(qkeras=self.m(x), proxy=p(x))
        if old is not None:
            for w, a in zip(self.ws, old):
                w.assign(a)
        return r

    def prop(self, ins, outs):
        return [('the converted layer carries the quantized weights', eq_arr(outs['proxy'], outs['qkeras']))]


class Model(Harness):
    """whole models with concrete weights, every input"""
    functions = ['to_proxy_model', 'qlayer_to_proxy_layer', 'qlayer_to_keras_layer', 'qkeras_quantizer_to_layers', 'convert_model', 'register_qconf (derive)']
    bounds = 'every input on the grid 2^-3 with |x| <= 4 (two or three elements); concrete seeded weights; saturating mode'
    max_paths = 3000

    def setup(self):
        import tensorflow as tf
        import qkeras as Q
        from HGQ import to_proxy_model
        L = tf.keras.layers
        rng = np.random.default_rng(self.seed)
        b = lambda *a, **k: quantizer(QB(*a, **k))  # noqa: E731
        r = lambda *a, **k: quantizer(QR(*a, **k))  # noqa: E731
        dense = lambda n, **k: Q.QDense(n, kernel_quantizer=b(4, 1), bias_quantizer=b(4, 1), **k)  # noqa: E731
        x = L.Input((2,))
        h = Q.QActivation(b(5, 2))(x)
        if self.net == 'chain':
            y = dense(1, activation=b(4, 1))(dense(2, activation=r(3, 1))(h))
        elif self.net == 'shared':
            d = dense(2, activation=b(4, 2))
            y = d(d(h))
        elif self.net == 'relu':
            y = Q.QActivation(b(4, 1, symmetric=1))(L.ReLU()(dense(2)(h)))
        elif self.net == 'mix':
            a = dense(2, activation=b(4, 1, keep_negative=False))(h)
            y = L.Concatenate()([a, Q.QActivation(r(3, 0))(h)])
        elif self.net == 'conv1':
            h = L.Reshape((2, 1))(h)
            y = L.Flatten()(Q.QActivation(r(4, 2))(Q.QConv1D(1, 2, padding='same', kernel_quantizer=b(3, 1), bias_quantizer=b(3, 0))(h)))
        elif self.net == 'conv2':
            h = L.Reshape((2, 1, 1))(h)
            y = L.Flatten()(Q.QConv2D(2, (2, 1), kernel_quantizer=b(3, 1), bias_quantizer=b(3, 0), activation=b(4, 1))(h))
        elif self.net == 'two':
            y = [dense(1, activation=b(3, 1))(h), Q.QActivation(b(3, 1))(L.Add()([h, dense(2, activation=r(3, 1))(h)]))]
        self.m = tf.keras.Model(x, y)
        for w in self.m.weights:
            w.assign((rng.integers(-20, 21, w.shape) / 8).astype('float32'))
        self.p = to_proxy_model(self.m, aggressive=False, skip_precision_reg=not self.reg)

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1, 2), -3, -32, 32))

    def run(self, ins):
        tup = lambda y: list(y) if isinstance(y, (list, tuple)) else [y]  # noqa: E731
        a, b = tup(self.m(ins['x'])), tup(self.p(ins['x']))
        return dict({f'q{i}': y for i, y in enumerate(a)}, **{f'p{i}': y for i, y in enumerate(b)})

    def prop(self, ins, outs):
        n = len(self.m.outputs)
        if len(self.p.outputs) != n:
            return [('as many outputs', False)]
        return [(f'output {i} of the proxy is that of the QKeras model', eq_arr(outs[f'p{i}'], outs[f'q{i}'])) for i in range(n)]


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    n = 0
    boxes = [(b, i) for b in range(1, 9 if T else 6) for i in range(0, 6 if T else 5)]        # QKeras takes no negative integer bits
    for b, i in boxes:
        for k in (0, 1):
            for s in (0, 1):
                if k == b == 1:
                    continue        # stated exception: QKeras turns these into a sign function
                n += 1
                for sat in ('SAT', 'WRAP') if T else (('SAT', 'WRAP', 'SAT')[n % 3],):
                    q = QB(b, i, keep_negative=k, symmetric=s)
                    hs.append(Quantizer(f'{short(q)}[{sat}]', q=q, sat=sat, how=('qact', 'string', 'dense')[n % 3] if sat == 'SAT' else 'qact'))
        if b >= 1:
            q = QR(b, i)
            hs.append(Quantizer(f'{short(q)}', q=q, sat=('SAT', 'WRAP')[(b + i) % 2], how=('qact', 'string', 'dense')[n % 3]))
    for kw in (P(negative_slope=.25), P(negative_slope=.5), P(relu_upper_bound=1.5, is_quantized_clip=False), P(relu_upper_bound=1.5), P(relu_upper_bound=.75, is_quantized_clip=False), P(is_quantized_clip=False), P(relu_upper_bound=8., is_quantized_clip=False)):
        for b, i in ((4, 1), (3, 0), (5, 3), (6, 2)) if T else ((4, 1),):
            q = QR(b, i, **kw)
            hs.append(Quantizer(f'{short(q)}', q=q, sat='SAT', how='qact'))
            if T:
                hs.append(Quantizer(f'{short(q)} in a layer', q=q, sat='SAT', how='dense'))
    L = lambda name, kind, shape, step=4, lim=20, free=False, **kw: hs.append(Layer(name, kind=kind, shape=shape, kw=kw, step=step, lim=lim, free=free))  # noqa: E731
    K, B, U, S = QB(3, 0), QB(4, 1), QB(3, 1, keep_negative=False), QB(4, 0, symmetric=1)
    for j, (k, b) in enumerate([(K, B), (S, U), (B, S), (U, K)]):
        L(f'dense{j}', 'QDense', (2,), units=1, kernel_quantizer=k, bias_quantizer=b, step=5, lim=80)
    L('dense free', 'QDense', (1,), units=1, kernel_quantizer=K, bias_quantizer=B, step=4, lim=20, free=True)
    L('dense free act', 'QDense', (1,), units=1, kernel_quantizer=K, bias_quantizer=B, activation=QB(3, 1), step=4, lim=20, free=True)
    L('dense no quantizers', 'QDense', (2,), units=2)
    L('dense no bias', 'QDense', (2,), units=2, kernel_quantizer=K, use_bias=False)
    L('dense only bias quantizer', 'QDense', (2,), units=1, bias_quantizer=K)
    L('dense only kernel quantizer', 'QDense', (2,), units=1, kernel_quantizer=K)
    L('dense relu', 'QDense', (2,), units=1, kernel_quantizer=K, bias_quantizer=B, activation=QR(4, 2))
    L('dense keras relu', 'QDense', (2,), units=1, kernel_quantizer=K, bias_quantizer=B, activation='relu')
    L('conv1', 'QConv1D', (3, 1), filters=1, kernel_size=2, kernel_quantizer=K, bias_quantizer=B)
    L('conv1 same', 'QConv1D', (3, 1), filters=2, kernel_size=2, padding='same', strides=2, kernel_quantizer=B, bias_quantizer=K)
    L('conv1 causal', 'QConv1D', (3, 1), filters=1, kernel_size=2, padding='causal', kernel_quantizer=B, bias_quantizer=K)
    L('conv1 dilated', 'QConv1D', (4, 1), filters=1, kernel_size=2, dilation_rate=2, kernel_quantizer=B, use_bias=False)
    L('conv2', 'QConv2D', (2, 2, 1), filters=1, kernel_size=2, kernel_quantizer=K, bias_quantizer=B)
    L('conv2 same', 'QConv2D', (2, 2, 1), filters=1, kernel_size=(1, 2), padding='same', strides=(2, 1), kernel_quantizer=S, bias_quantizer=B, activation=QR(4, 2))
    L('conv2 channels', 'QConv2D', (1, 2, 2), filters=2, kernel_size=1, kernel_quantizer=K, use_bias=False)
    L('conv2 groups', 'QConv2D', (1, 1, 2), filters=2, kernel_size=1, groups=2, kernel_quantizer=K, bias_quantizer=B)
    L('separable 1', 'QSeparableConv1D', (2, 1), filters=1, kernel_size=2, depthwise_quantizer=K, pointwise_quantizer=B, bias_quantizer=U)
    L('separable 2', 'QSeparableConv2D', (1, 2, 1), filters=1, kernel_size=(1, 2), depthwise_quantizer=S, pointwise_quantizer=K, use_bias=False)
    for i, net in enumerate(('chain', 'shared', 'relu', 'mix', 'conv1', 'conv2', 'two')):
        for s in range(4 if T else 1):
            hs.append(Model(f'{net}{s}', net=net, seed=10 * i + s, reg=(i + s) % 2 == 0, cost=3))
    return hs
