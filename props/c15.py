import re

import numpy as np

from hgqsym import symarray
from .oracle import *

ZERO, ONE = D(0, 0), D(1, 0)


def holds(a, k, i, f):
    """a is a value of the type (k, i, f)"""
    t = mul(a, pow2(f), N)
    lo = neg(pow2(i)) if k else ZERO
    return b_and(core.unb(eq(floor(t), t)), core.unb(le(lo, a)), core.unb(lt(a, pow2(i))))


class Container(Harness):
    functions = ['get_arr_container']
    assumptions = ['the float32 base-2 logarithm is correct at and next to powers of two inside the bounds']

    @property
    def bounds(self):
        return f'arrays of shape {self.shape}, values k*2^{self.e}, |k| <= {self.lim}'

    def setup(self):
        from HGQ.proxy.precision_derivation import get_arr_container
        self.fn = get_arr_container

    def inputs(self, v):
        return dict(w=v.dyadic('w', self.shape, self.e, -self.lim, self.lim))

    def run(self, ins):
        k, i, f = self.fn(ins['w'], silent=True)
        return dict(k=int(k), i=int(i), f=int(f))

    def prop(self, ins, outs):
        w = A(ins['w']).reshape(-1)
        k, i, f = outs['k'], outs['i'], outs['f']
        I, F = D(i, 0) if i >= 0 else neg(D(-i, 0)), D(f, 0) if f >= 0 else neg(D(-f, 0))
        zero = b_and(*[core.unb(eq(a, ZERO)) for a in w])
        F1, I1 = sub(F, ONE, N), sub(I, ONE, N)
        return [('an all-zero array gets one unsigned bit', b_implies(zero, (k, i, f) == (0, 1, 0))),
                ('every value fits', b_and(*[holds(a, k, I, F) for a in w])),
                ('sign bit only with a negative value', b_or(k == 0, *[core.unb(lt(a, ZERO)) for a in w]) if k in (0, 1) else False),
                ('no fractional bit to spare', b_or(zero, *[b_not(core.unb(eq(floor(mul(a, pow2(F1), N)), mul(a, pow2(F1), N)))) for a in w])),
                ('no integer bit to spare', b_or(zero, *[b_or(core.unb(le(pow2(I1), a)), core.unb(lt(a, neg(pow2(I1))))) for a in w]))]


class Names(Harness):
    functions = ['tuple_to_apf', 'apf_to_tuple']
    bounds = 'sign 0/1, integer and fractional bits any integers in [-64, 64] with at least one bit in total; each rounding and overflow mode'
    assumptions = ['printing and parsing of decimal integers are inverse to each other']

    def setup(self):
        from HGQ.utils import apf_to_tuple, tuple_to_apf
        self.w, self.p = tuple_to_apf, apf_to_tuple

    def inputs(self, v):
        return dict(k=v.ints('k', (), 0, 1), i=v.ints('i', (), -64, 64), f=v.ints('f', (), -64, 64))

    def assume(self, ins):
        k, i, f = [A(ins[n]).item() for n in 'kif']
        return le(ONE, add(add(k, i, N), f, N))

    def run(self, ins):
        sym = core.CTX is not None
        mods = [g for g in {id(f.__globals__): f.__globals__ for f in (self.w, self.p)}.values()] if sym else []
        conv = symarray.parse_int
        try:
            if sym:
                symarray.TOKENS = {}
                for g in mods:
                    g['int'] = symarray.TokenInt
            t = (ins['k'], ins['i'], ins['f']) if sym else tuple(int(ins[n]) for n in 'kif')
            name = self.w(t, *self.args)
            r = self.p(name)
            m = re.fullmatch(r'(ap_)?(u?)fixed<(\d+),(-?\d+)((?:,[A-Z_]+)*)>', name.replace(' ', ''))
            if m is None:
                return dict(bad=name)
            return dict(k=r[0], i=r[1], f=r[2], un=int(bool(m[2])), w=conv(m[3]), n=conv(m[4]), modes=m[5])
        finally:
            symarray.TOKENS = None
            for g in mods:
                g.pop('int', None)

    def prop(self, ins, outs):
        if 'bad' in outs:
            return [('is a fixed-point type name', False)]
        k, i, f = [A(ins[n]).item() for n in 'kif']
        o = {n: A(outs[n]).item() for n in ('k', 'i', 'f', 'un', 'w', 'n')}
        same = b_and(*[core.unb(teq(core.lift(o[n]), x)) for n, x in zip('kif', (k, i, f))])
        std = b_and(core.unb(teq(core.lift(o['un']), sub(ONE, k, N))), core.unb(teq(core.lift(o['w']), add(add(k, i, N), f, N))), core.unb(teq(core.lift(o['n']), add(k, i, N))))
        R, S = (list(self.args[:2]) + ['TRN', 'WRAP'][len(self.args):])
        ms = [x for x in outs['modes'].split(',') if x]
        mode_ok = (ms + ['TRN', 'WRAP'][len(ms):]) == [R, S]
        return [('parsing the name gives the precision back', same), ('the name gives sign, total width and integer bits', std), ('and the modes', mode_ok)]


RNDS = ['TRN', 'TRN_ZERO', 'RND', 'RND_ZERO', 'RND_MIN_INF', 'RND_INF', 'RND_CONV']
SATS = ['WRAP', 'WRAP_SM', 'SAT', 'SAT_ZERO', 'SAT_SYM']


def harnesses(tier):
    T = tier == 'thorough'
    hs = []
    for e in (-24, -12, -3, 0, 6, 18) + ((-30, -18, -7, 3, 12) if T else ()):
        hs.append(Container(f'one[{e}]', shape=(1,), e=e, lim=65535 if T else 4095))
    for e in (-20, -4, 2) + ((-28, -9, 0, 10) if T else ()):
        hs.append(Container(f'two[{e}]', shape=(2,), e=e, lim=255 if T else 31, cost=2))
    hs.append(Container('three', shape=(3, 1), e=-2, lim=15 if T else 5, cost=3))
    hs.append(Container('four', shape=(2, 2), e=-1, lim=7 if T else 2, cost=3))
    hs += [Names('name[]', args=())] + [Names(f'name[{r}]', args=(r,)) for r in RNDS]
    hs.append(Names('name[empty ones dropped]', args=('RND', 'SAT', False)))
    hs += [Names(f'name[{r},{s}]', args=(r, s)) for r in RNDS for s in SATS]
    return hs
