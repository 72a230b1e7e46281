import copy
import json
import tempfile

import numpy as np

from .oracle import *

PAQ = dict(init_bw=1., skip_dims=(0, 1), rnd_strategy='floor', exact_q_value=True, dtype=None, bw_clip=(-3, 2), trainable=True, minmax_record=True)
KQ = dict(init_bw=3., skip_dims='except_last', rnd_strategy='standard_round', exact_q_value=True, dtype=None, bw_clip=(-4, 2), trainable=True, minmax_record=False)


def plain(c):
    """configuration with the differences that carry no meaning removed: lists for tuples, serialized for live regularizers, wrappers"""
    if type(c).__name__ == 'MonoL1':
        return ['MonoL1', float(c.get_config()['l1'])]
    if isinstance(c, dict) or hasattr(c, 'items'):
        n = str(c.get('class_name', ''))
        if n.endswith('MonoL1'):
            return ['MonoL1', float(c['config']['l1'])]
        return {k: plain(v) for k, v in c.items() if k not in ('module', 'registered_name', 'build_config', '__passive_serialization__')}
    if isinstance(c, (list, tuple)) or type(c).__name__ in ('ListWrapper', '_TupleWrapper'):
        return [plain(v) for v in c]
    if callable(c):
        return getattr(c, '__name__', str(c))
    if hasattr(c, 'numpy'):
        return plain(c.numpy())
    if isinstance(c, np.ndarray):
        return c.tolist()
    if isinstance(c, np.generic):
        return c.item()
    return c


def confs(paq=None, kq=None):
    from HGQ.utils.utils import MonoL1
    return dict(dict(PAQ, regularizer=MonoL1(.5)), **(paq or {})), dict(dict(KQ, regularizer=MonoL1(.25)), **(kq or {}))


def quantizer_facts(q):
    """what the rebuilt quantizer has to share"""
    return dict(rnd=q.rnd_strategy, clip=plain(q.bw_clip), exact=q.exact_q_value, degeneracy=float(q.degeneracy), granularity=tuple(q.fbw.shape), record=q.minmax_record, trainable=bool(q.fbw.trainable), init=float(q.init_bw))


class Restore(Harness):
    functions = ['get_config / from_config of every HGQ layer', 'HLayerBase.__init__/build/post_build/init_quantizers', 'HGQ.from_config', 'MonoL1.get_config/from_config', 'forward of the original and of each rebuilt layer']
    bounds = 'inputs multiples of 1/4 with |x| <= 2, all weights of the layer symbolic (multiples of 1/4, |w| <= 2; variances 1/4..2; bitwidths concrete per element, or symbolic halves where stated), batch 2 in training; rebuilt by from_config(get_config()), by the JSON form of the native format, and by saving and loading a model in HDF5'
    assumptions = ['over the reals', 'weights are transferred in order, as keras does', 'restoring a whole model in the native format is not covered: keras does not get that far in this environment, whatever the layers']
    float_mode = 'real'
    tol = Fraction(1, 1024)
    opt, paq, kq, symf, step = {}, {}, {}, False, False
    hlayer = True
    timeout_ms = 8000

    def setup(self):
        import tensorflow as tf
        import HGQ.layers as H
        from HGQ.layers.base import ABSBaseLayer
        Input = tf.keras.layers.Input
        wide = dict(bw_clip=(-23, 22)) if self.cls.endswith('BatchNorm') else {}
        paq, kq = confs(dict(wide, **self.paq), dict(wide, **self.kq))
        kw = dict(self.opt)
        if self.hlayer:
            kw.update(paq_conf=paq, beta=.5)
            if self.cls not in ('HQuantize', 'HActivation', 'HAdd'):
                kw.update(kq_conf=kq)
        before = copy.deepcopy(plain(kw))
        self.untouched = []
        l = getattr(H, self.cls)(**kw)
        xs = [Input(s) for s in self.shapes]
        qs = [H.HQuantize(beta=.25)(x) for x in xs]
        m = tf.keras.Model(xs, l(qs if len(qs) > 1 else qs[0]))
        self.rng = np.random.default_rng(5)
        self.bn = self.cls.endswith('BatchNorm')         # 18 fractional bits, taken as the identity: where a value sits on a grid point, the float error of the normalization would decide the rounding
        for w in l.weights:
            w.assign(self.rng.integers(1, 8, w.shape) / 4)
        if self.hlayer:                                  # strengths of every magnitude
            l.beta.assign((1.2345678e-7, 3.3e-6, .1, 7e4, 1e-9, 0., 1.)[sum(map(ord, self.name)) % 7])
        if self.step:                                    # a first training step adapts the kernel bitwidths of fused layers, once
            m([np.ones((2,) + s, 'float32') for s in self.shapes], training=True)
        self.untouched.append(before == plain(kw))
        cfg = l.get_config()
        self.cfg = copy.deepcopy(plain(cfg))
        given = copy.deepcopy(cfg)
        self.ls = dict(original=l, config=type(l).from_config(given))
        self.untouched.append(plain(given) == self.cfg)
        sk = tf.keras.saving
        self.ls['json'] = sk.deserialize_keras_object(json.loads(json.dumps(sk.serialize_keras_object(l))))
        with tempfile.TemporaryDirectory() as d:
            m.save(d + '/m.h5')
            self.ls['h5'] = [a for a in tf.keras.models.load_model(d + '/m.h5').layers if type(a) is type(l) and a.name == l.name][0]
        a, b = l.get_weights(), self.ls['h5'].get_weights()
        self.loaded = len(a) == len(b) and all(p.shape == q.shape and (p == q).all() for p, q in zip(a, b))
        for k, a in self.ls.items():
            if not a._inbound_nodes:
                a(qs if len(qs) > 1 else qs[0])
        self.facts = {k: self.fact(a) for k, a in self.ls.items()}
        self.again = {k: plain(a.get_config()) for k, a in self.ls.items()}
        self.shapes_ = [tuple(w.shape) for w in l.weights]
        self.names = [self.role(l, w) for w in l.weights]
        # bitwidths that differ per element and stay inside and outside of the clipping range
        self.fixed = {i: (np.full(s, 18.) if self.bn else self.rng.integers(-2, 6, s) / 2 + .125).astype('float32') for i, s in enumerate(self.shapes_) if self.names[i] == 'bitwidth'}
        ABSBaseLayer.input_bw = property(lambda l: None)

    def role(self, l, w):
        if any(getattr(getattr(l, q, None), 'fbw', None) is w for q in ('paq', 'kq')):
            return 'bitwidth'
        for n in ('beta', 'bops', 'kernel', 'bias', 'moving_variance', 'moving_mean', 'bn_gamma', 'bn_beta'):
            if getattr(l, n, None) is w:
                return n
        return ''

    def fact(self, l):
        if not self.hlayer:
            return dict(widths=[plain(getattr(l, a)) for a in ('keep_negative', 'bits', 'int_bits')], exact=plain(l.act_bw_exact)) if self.cls == 'Signature' else {}
        r = dict(beta=float(l.beta.numpy()), parallel=getattr(l, 'parallel_factor', None), weights=[(tuple(w.shape), self.role(l, w), bool(w.trainable)) for w in l.weights])
        for q in ('paq', 'kq'):
            if getattr(l, q, None) is not None:
                r[q] = quantizer_facts(getattr(l, q))
        return r

    def inputs(self, v):
        d = {f'x{i}': v.dyadic(f'x{i}', (self.n,) + s, -2, -8, 8) for i, s in enumerate(self.shapes)}
        for i, (n, s) in enumerate(zip(self.names, self.shapes_)):
            if i in self.fixed:
                if self.symf:
                    d[f'w{i}'] = v.dyadic(f'w{i}', s, -1, -2, 6)
            elif n in ('beta', 'bops'):
                pass
            elif n == 'moving_variance':
                d[f'w{i}'] = v.dyadic(f'w{i}', s, -2, 1, 8)
            else:
                d[f'w{i}'] = v.dyadic(f'w{i}', s, -2, -8, 8)
        return d

    n = 1

    def run(self, ins):
        core.REAL_FLOOR_ID[0] = self.bn and core.CTX is not None
        try:
            return self.calls(ins)
        finally:
            core.REAL_FLOOR_ID[0] = False

    def calls(self, ins):
        import tensorflow as tf
        outs = {}
        xs = [ins[f'x{i}'] for i in range(len(self.shapes))]
        xs = xs if len(xs) > 1 else xs[0]
        for way, l in self.ls.items():
            if self.facts[way] != self.facts['original']:
                continue
            for i, w in enumerate(l.weights):
                if f'w{i}' in ins:
                    put(w, ins[f'w{i}'])
                elif i in self.fixed:
                    put(w, self.fixed[i])
            outs[way + ' y'] = l(xs, training=False)
            if self.train:
                if self.hlayer and l.paq.minmax_record:
                    l.paq.minmax_reg_reset()
                outs[way + ' t'] = l(xs, training=True)
                for i, w in enumerate(l.weights):
                    if self.names[i] not in ('beta', 'bops'):
                        outs[f'{way} after {i}'] = get(w)
                if self.hlayer and l.paq.minmax_record:
                    outs[way + ' min'], outs[way + ' max'] = get(l.paq._min), get(l.paq._max)
            if self.hlayer:
                fns = l._callable_losses
                if fns:
                    outs[way + ' regularization'] = tf_call(lambda: tf.add_n([f() for f in fns]))
        return outs

    def prop(self, ins, outs):
        r = [('loaded weights are the saved ones', self.loaded), ('configurations passed in are not altered', all(self.untouched))]
        eqs = lambda a, b: A(a).shape == A(b).shape and claim_all(lambda p, q: core.near(p, q, self.tol), A(a), A(b))  # noqa: E731
        keys = [k[len('original'):] for k in outs if k.startswith('original')]
        for way in self.ls:
            if way == 'original':
                continue
            r.append((f'{way}: strategy, granularity, bounds, regularization strength, parallelism and weights', self.facts[way] == self.facts['original']))
            r.append((f'{way}: saves the same configuration again', self.again[way] == self.cfg))
            if self.facts[way] != self.facts['original']:
                continue
            for k in keys:
                r.append((f'{way}:{k}', way + k in outs and eqs(outs[way + k], outs['original' + k])))
        return r


class Proxy(Harness):
    """proxy quantizers and tables"""
    functions = ['FixedPointQuantizer.get_config/from_config/call', 'UnaryLUT.get_config/call']
    bounds = 'inputs multiples of 1/16 with |x| <= 8 (tables: the table index range); bits, integer bits and signs of the quantizer, table entries: seeded'

    def setup(self):
        import tensorflow as tf
        from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer
        from HGQ.proxy.unary_lut import UnaryLUT
        rng = np.random.default_rng(self.seed)
        if self.kind == 'fpq':
            s = (1,) + self.shape
            l = FixedPointQuantizer(rng.integers(0, 2, s).astype('int8'), rng.integers(1, 6, s).astype('int8'), rng.integers(-1, 4, s).astype('int8'), RND=self.mode[0], SAT=self.mode[1], overrides=dict(layer_name_conf=1))
        else:
            l = UnaryLUT.from_activation(tf.keras.activations.tanh, (1, 2, 1), (1, 0, 3, 'RND', 'SAT'))
        x = tf.keras.layers.Input(self.shape)
        m = tf.keras.Model(x, l(x))
        if self.kind != 'fpq':
            for w in l.weights:
                w.assign(rng.integers(-8, 8, w.shape) / 8)
        cfg = l.get_config()
        self.cfg = plain(copy.deepcopy(cfg))
        self.ls = dict(original=l, config=type(l).from_config(copy.deepcopy(cfg)))
        sk = tf.keras.saving
        self.ls['json'] = sk.deserialize_keras_object(json.loads(json.dumps(sk.serialize_keras_object(l))))
        with tempfile.TemporaryDirectory() as d:
            m.save(d + '/m.h5')
            self.ls['h5'] = tf.keras.models.load_model(d + '/m.h5').layers[-1]
        a, b = l.get_weights(), self.ls['h5'].get_weights()
        self.loaded = len(a) == len(b) and all(p.shape == q.shape and (p == q).all() for p, q in zip(a, b))
        for k, a in self.ls.items():
            if k in ('config', 'json'):
                a(x)
                a.set_weights(l.get_weights())
        self.again = {k: plain(a.get_config()) for k, a in self.ls.items()}
        self.facts = {k: [plain(getattr(a, n, None)) for n in ('RND', 'SAT', 'overrides', 'keep_negative', 'bits', 'integers', 'kif_in', 'kif_out')] for k, a in self.ls.items()}

    def inputs(self, v):
        return dict(x=v.dyadic('x', (1,) + self.shape, *((-4, -128, 128) if self.kind == 'fpq' else (-1, -4, 3))))

    def run(self, ins):
        return {k: l(ins['x'], training=False) for k, l in self.ls.items()}

    def prop(self, ins, outs):
        r = [('loaded weights are the saved ones', self.loaded)]
        for k in self.ls:
            if k != 'original':
                r.append((f'{k}: modes, widths and overrides', self.facts[k] == self.facts['original']))
                r.append((f'{k}: same output', eq_arr(outs[k], outs['original'])))
                r.append((f'{k}: saves the same configuration again', self.again[k] == self.cfg))
        return r


def harnesses(tier):
    hs = []
    R = lambda name, cls, shapes, **kw: hs.append(Restore(name, cls=cls, shapes=shapes, train=kw.pop('train', True), **kw))  # noqa: E731
    alls = dict(skip_dims='all')
    R('dense', 'HDense', [(2,)], opt=dict(units=2, activation='relu'), paq=dict(skip_dims=(0,)))
    R('dense none', 'HDense', [(2,)], opt=dict(units=2, use_bias=False), paq=dict(skip_dims='batch', rnd_strategy='auto', bw_clip=(-2, 1)), kq=dict(skip_dims=None, rnd_strategy='floor'))
    R('dense auto', 'HDense', [(2,)], opt=dict(units=2), paq=dict(skip_dims='batch', rnd_strategy='auto'), kq=dict(skip_dims='none', trainable=False))
    R('dense 2d', 'HDense', [(2, 2)], opt=dict(units=2, parallel_factor=1), paq=dict(skip_dims='except_1st'), kq=dict(skip_dims=(0,)))
    R('dense 2d default factor', 'HDense', [(2, 2)], opt=dict(units=1))
    R('dense approximate', 'HDense', [(2,)], opt=dict(units=1), paq=dict(exact_q_value=False, **alls), kq=dict(exact_q_value=False))
    R('dense noise', 'HDense', [(2,)], opt=dict(units=1), paq=dict(rnd_strategy='stochastic_round', **alls), kq=dict(rnd_strategy='fast_uniform_noise_injection'), train=False)
    R('dense regularized', 'HDense', [(2,)], opt=dict(units=2, kernel_regularizer='l2', bias_regularizer='l1'), paq=alls)
    R('conv1', 'HConv1D', [(3, 1)], opt=dict(filters=2, kernel_size=2, strides=2, padding='same', use_bias=False, parallel_factor=2))
    R('conv1 groups', 'HConv1D', [(3, 2)], opt=dict(filters=2, kernel_size=2, groups=2, dilation_rate=2), paq=dict(skip_dims=(0, 2)), kq=dict(skip_dims='all'))
    R('conv2', 'HConv2D', [(2, 3, 1)], opt=dict(filters=1, kernel_size=(1, 2), strides=(2, 1), activation='relu', parallel_factor=2), paq=dict(skip_dims='except_last'))
    bn = dict(do_adapt_kernel_bits=False, momentum=.5, epsilon=.25)
    R('dense bn', 'HDenseBatchNorm', [(1,)], opt=dict(units=2, **bn), paq=alls, n=2)
    R('dense bn center', 'HDenseBatchNorm', [(1,)], opt=dict(units=1, center=False, activation='relu', **bn), paq=alls, n=2)
    R('dense bn scale', 'HDenseBatchNorm', [(2,)], opt=dict(units=1, scale=False, **bn), paq=alls, n=2)
    R('dense bn 2d', 'HDenseBatchNorm', [(2, 1)], opt=dict(units=1, parallel_factor=1, **bn), paq=alls, n=1)
    R('dense bn no bias', 'HDenseBatchNorm', [(1,)], opt=dict(units=1, use_bias=False, **bn), paq=dict(rnd_strategy='standard_round', **alls), n=2)
    R('dense bn adapted', 'HDenseBatchNorm', [(1,)], opt=dict(units=1, momentum=.75, epsilon=.5), paq=alls, n=2, step=True)
    R('dense bn initializers', 'HDenseBatchNorm', [(1,)], opt=dict(units=1, beta_initializer='ones', gamma_initializer='zeros', moving_mean_initializer='ones', moving_variance_initializer='zeros', beta_regularizer='l2', gamma_regularizer='l1', **bn), paq=alls, n=2)
    R('conv1 bn', 'HConv1DBatchNorm', [(3, 1)], opt=dict(filters=1, kernel_size=2, scale=False, parallel_factor=2, **bn), n=1)
    R('conv2 bn', 'HConv2DBatchNorm', [(2, 2, 1)], opt=dict(filters=1, kernel_size=(1, 2), parallel_factor=2, **bn), paq=alls, n=1)
    R('quantize', 'HQuantize', [(2, 2)], paq=dict(skip_dims=(0, 2)), symf=True)
    R('quantize auto', 'HQuantize', [(2,)], paq=dict(skip_dims='batch', rnd_strategy='auto'))
    R('quantize number', 'HQuantize', [(2,)], paq=dict(skip_dims='batch', rnd_strategy=3, bw_clip=(-1, 1), trainable=False))
    R('activation', 'HActivation', [(2,)], opt=dict(activation='relu'), paq=dict(alls, rnd_strategy='auto'))
    R('activation floor', 'HActivation', [(2,)], opt=dict(activation='relu'), paq=dict(skip_dims='batch'), symf=True)
    R('activation linear', 'HActivation', [(2,)], opt=dict(activation='linear'), paq=alls)
    R('add', 'HAdd', [(2,), (2,)], paq=dict(skip_dims=(0,)), symf=True)
    P = lambda name, cls, shapes, **opt: R(name, cls, shapes, opt=opt, hlayer=False, train=opt.get('rate') is None)  # noqa: E731
    P('signature', 'Signature', [(2, 2)], keep_negative=1, bits=5, int_bits=3)
    P('reshape', 'PReshape', [(2, 2)], target_shape=(4, 1))
    P('flatten', 'PFlatten', [(2, 2)])
    P('permute', 'PPermute', [(2, 3)], dims=(2, 1))
    P('concatenate', 'PConcatenate', [(1, 2), (2, 2)], axis=1)
    P('dropout', 'PDropout', [(2,)], rate=.25)
    P('max1', 'PMaxPooling1D', [(3, 1)], pool_size=2, strides=1, padding='same')
    P('avg1', 'PAveragePooling1D', [(4, 1)], pool_size=2, strides=1)
    P('max2', 'PMaxPooling2D', [(2, 3, 1)], pool_size=(1, 2), strides=(2, 1))
    P('avg2', 'PAveragePooling2D', [(2, 2, 1)], pool_size=(2, 1))
    for i, mode in enumerate([('TRN', 'WRAP'), ('RND', 'SAT'), ('RND_CONV', 'SAT_SYM'), ('TRN_ZERO', 'SAT_ZERO'), ('RND_INF', 'WRAP')]):
        hs.append(Proxy(f'fixed point quantizer {mode}', kind='fpq', shape=(3,) if i % 2 else (2, 2), mode=mode, seed=i))
    hs.append(Proxy('table', kind='lut', shape=(2,), seed=9))
    return hs
