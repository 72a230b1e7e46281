"""Scalar algebra, path exploration and solver layer.

Scalars that can occur in a symbolic tensor:
  D       dyadic number m * 2**e, m a Python int or a z3 Int term, with integer bounds lo <= m <= hi
  R       z3 Real term (no float semantics: claims made through R are claims over the reals)
  LG      base-2 logarithm of a D, times a factor, plus a rational (only ever consumed by floor/ceil/compare/max/min)
  float   +-inf / nan only
  bool or z3 BoolRef
"""
import math
import os
import random
import sys
import time
from fractions import Fraction
from math import inf, isinf, isnan

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

LN2 = 0.6931471805599453


class Inexact(Exception):
    """A float operation may round within the tracked bounds: the bounds of the harness are too wide."""


class Unsupported(Exception):
    pass


class Infeasible(BaseException):
    """Path-steering: the current path has no model."""


class Budget(BaseException):
    """Path-steering: path or time budget exhausted."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.inexact = 0
        self.ops = {}
        self.truncated = 0


STATS = Stats()
TIMEOUT_MS = int(os.environ.get('HGQSYM_TIMEOUT_MS', '120000'))


DEADLINE = None       # of the exploration under way


def _check(solver, *assumptions):
    t = time.time()
    if DEADLINE is not None and t > DEADLINE:
        raise Budget()
    r = solver.check(*assumptions)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    return r


# ---------------------------------------------------------------------------------------------------------------
# path context
# ---------------------------------------------------------------------------------------------------------------

class Ctx:
    def __init__(self, prefix=(), float_mode='exact', timeout_ms=None):
        self.prefix = list(prefix)
        self.taken = []          # decisions actually taken, replayed from prefix first
        self.alts = []           # alternative prefixes discovered on this run
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms or TIMEOUT_MS
        self.solver.set('timeout', self.timeout_ms)
        self.float_mode = float_mode   # exact: refuse inexact float results; round: IEEE round-to-nearest-even; real: ignore
        self.inputs = {}         # name -> scalar (for model extraction)
        self.uf_apps = {}        # uninterpreted applications, for axioms
        self.uf_order = []
        self.uf_axioms = set()
        self.fresh = 0
        self.pc = []
        self.known = {}          # term id -> (term, value) for integer terms concretised on this path

    # -- assumptions -------------------------------------------------------------------------------------------
    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.pc.append(b)
        self.solver.add(b)

    def feasible(self, b=True):
        if b is False:
            return False
        r = _check(self.solver) if b is True else _check(self.solver, b)
        if r == z3.unknown:
            # keep the branch: exploring an infeasible path is sound (its obligations are still implied)
            return True
        return r == z3.sat

    # -- decisions ---------------------------------------------------------------------------------------------
    def _next_prefix(self):
        i = len(self.taken)
        if i < len(self.prefix):
            return True, self.prefix[i]
        return False, None

    def fork_bool(self, b):
        if isinstance(b, bool):
            return b
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        have, v = self._next_prefix()
        if not have:
            t, f = self.feasible(b), self.feasible(z3.Not(b))
            if not t and not f:
                raise Infeasible()
            v = t
            if t and f:
                STATS.forks += 1
                self.alts.append(self.taken + [False])
        self.taken.append(v)
        self.assume(b if v else z3.Not(b))
        return v

    def fork_int(self, t, lo=None, hi=None, cap=5000):
        """Pick a concrete value for Int term t; all other feasible values become alternative paths."""
        if isinstance(t, int):
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if t.get_id() in self.known:
            return self.known[t.get_id()][1]
        have, v = self._next_prefix()
        if not have:
            vals = []
            s = self.solver
            s.push()
            while True:
                r = _check(s)
                if r == z3.unknown:
                    s.pop()
                    raise Unsupported('solver gave up while enumerating a concretised value')
                if r == z3.unsat:
                    break
                x = s.model().eval(t, model_completion=True).as_long()
                vals.append(x)
                if len(vals) > cap:
                    s.pop()
                    raise Budget()
                s.add(t != x)
            s.pop()
            if not vals:
                raise Infeasible()
            vals.sort()
            v = vals[0]
            if len(vals) > 1:
                STATS.forks += 1
            for w in reversed(vals[1:]):
                self.alts.append(self.taken + [w])
        self.taken.append(v)
        self.assume(t == v)
        self.known[t.get_id()] = (t, v)
        return v

    # -- variables ---------------------------------------------------------------------------------------------
    def dyadic(self, name, e, lo, hi):
        """Fresh symbolic value k*2^e with lo <= k <= hi."""
        m = z3.Int(name)
        d = D(m, e, lo, hi)
        if _VARB.get(name, (lo, hi)) != (lo, hi):
            _IV.clear()
        _VARB[name] = (lo, hi)
        self.assume(z3.And(m >= lo, m <= hi))
        self.inputs[name] = d
        return d

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        if lo is not None:
            self.assume(t >= _q(lo))
        if hi is not None:
            self.assume(t <= _q(hi))
        r = R(t)
        self.inputs[name] = r
        return r

    def boolean(self, name):
        b = z3.Bool(name)
        self.inputs[name] = b
        return b

    def fresh_name(self, base):
        self.fresh += 1
        return f'{base}!{self.fresh}'

    # -- obligations -------------------------------------------------------------------------------------------
    def refute(self, claim):
        """None if claim is valid on this path, otherwise a z3 model, or 'unknown'."""
        STATS.obligations += 1
        if claim is True:
            STATS.discharged += 1
            STATS.trivial += 1
            return None
        neg = z3.BoolVal(True) if claim is False else z3.Not(claim)
        if claim is not False and z3.is_true(z3.simplify(claim)):
            STATS.discharged += 1
            STATS.trivial += 1
            return None
        m = self._probe(neg)
        if m is not None:
            return m
        r = _check(self.solver, neg)
        if r == z3.unsat:
            STATS.discharged += 1
            return None
        if r == z3.sat:
            return self.solver.model()
        # second opinion: fresh solver with a different tactic
        s = z3.SolverFor('QF_NIA') if not any_real(self.pc + [neg]) else z3.Tactic('smt').solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.pc)
        r = _check(s, neg)
        if r == z3.unsat:
            STATS.discharged += 1
            return None
        if r == z3.sat:
            return s.model()
        return 'unknown'


    def _probe(self, neg):
        """Nonlinear real obligations: look for a counterexample with most inputs pinned first (a hit is a model like any other;
        no hit decides nothing)."""
        if not any(isinstance(x, R) for x in self.inputs.values()):
            return None
        rng = random.Random(len(self.pc))
        for n in range(12):
            m = pinned_model(self, rng, positive=n % 3 == 2)
            if m is not None and z3.is_true(m.eval(neg, model_completion=True)):
                return m
        return None


_NUMERIC = {'rsqrt': lambda x: x ** -.5, 'sqrt': lambda x: x ** .5, 'exp': math.exp, 'log2': math.log2, 'tanh': math.tanh}


def pinned_model(c, rng, positive=False):
    """A model of the path with random inputs and numerically evaluated transcendental functions, or None."""
    s = z3.Solver()
    subs = []

    def pin(t, v):
        subs.append((t, v))
        s.add(t == v)
    for x in c.inputs.values():
        if isinstance(x, R):
            pin(x.t, _q(Fraction(rng.randint(1, 32) * (1 if positive else rng.choice([1, 1, -1])), 16)))
        elif isinstance(x, D):
            pin(x.m, z3.IntVal(rng.randint(x.lo, x.hi)))
        else:
            pin(x, z3.BoolVal(rng.random() < .5))
    for name, args, app in c.uf_order:
        f = _NUMERIC.get(name)
        if f is None:
            return None
        try:
            vs = [z3.simplify(z3.substitute(a, *subs)) for a in args]
            v = f(*[float(Fraction(v.numerator_as_long(), v.denominator_as_long())) for v in vs])
            pin(app, _q(Fraction(v)))
        except (ValueError, ZeroDivisionError, OverflowError, AttributeError, TypeError):
            return None
    if _check(s) != z3.sat:
        return None
    m = s.model()
    ax = c.uf_axioms
    return m if all(b.get_id() in ax or z3.is_true(m.eval(b, model_completion=True)) for b in c.pc) else None


def any_real(terms):
    seen = set()

    def walk(t):
        if t.get_id() in seen:
            return False
        seen.add(t.get_id())
        if z3.is_real(t):
            return True
        return any(walk(c) for c in t.children())
    return any(walk(t) for t in terms if z3.is_expr(t))


CTX: 'Ctx | None' = None


def ctx():
    if CTX is None:
        raise RuntimeError('no symbolic context')
    return CTX


def explore(fn, max_paths=20000, deadline=None, **kw):
    """Run fn(ctx) on every feasible path.  Returns list of fn's results; marks truncation in STATS."""
    global CTX, DEADLINE
    stack = [[]]
    results = []
    n = 0
    while stack:
        if n >= max_paths or (deadline and time.time() > deadline):
            STATS.truncated += 1
            break
        prefix = stack.pop()
        c = Ctx(prefix, **kw)
        saved, CTX = CTX, c
        n += 1
        STATS.paths += 1
        outer, DEADLINE = DEADLINE, deadline
        try:
            results.append(fn(c))
        except Infeasible:
            pass
        except Budget:
            STATS.truncated += 1
        finally:
            CTX = saved
            DEADLINE = outer
        stack.extend(c.alts)
    return results


# ---------------------------------------------------------------------------------------------------------------
# scalars
# ---------------------------------------------------------------------------------------------------------------

def _q(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


def _is_sym(x):
    return z3.is_expr(x)


class _Num:
    __slots__ = ()
    __array_ufunc__ = None

    # arithmetic (float64 precision unless used through tensors)
    def __add__(s, o): return add(s, o, None)
    def __radd__(s, o): return add(o, s, None)
    def __sub__(s, o): return sub(s, o, None)
    def __rsub__(s, o): return sub(o, s, None)
    def __mul__(s, o): return mul(s, o, None)
    def __rmul__(s, o): return mul(o, s, None)
    def __truediv__(s, o): return div(s, o, None)
    def __rtruediv__(s, o): return div(o, s, None)
    def __floordiv__(s, o): return floor(div(s, o, None))
    def __rfloordiv__(s, o): return floor(div(o, s, None))
    def __mod__(s, o): return floormod(s, o)
    def __rmod__(s, o): return floormod(o, s)
    def __pow__(s, o): return power(s, o, None)
    def __rpow__(s, o): return power(o, s, None)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return absolute(s)
    def __lt__(s, o): return SB(lt(s, o))
    def __le__(s, o): return SB(le(s, o))
    def __gt__(s, o): return SB(lt(o, s))
    def __ge__(s, o): return SB(le(o, s))
    def __eq__(s, o): return SB(eq(s, o))
    def __ne__(s, o): return SB(b_not(eq(s, o)))
    def __bool__(s): return ctx().fork_bool(b_not(eq(s, 0)))
    def __floor__(s): return floor(s)
    def __ceil__(s): return ceil(s)
    def __trunc__(s): return trunc(s)
    def __round__(s, n=None): return round_even(s)
    def __int__(s): return int(concretise(trunc(s)))
    def __index__(s): return int(concretise(s))
    def __float__(s): return float(concretise(s))
    def __hash__(s): return hash(concretise(s))

    @property
    def real(s): return s

    def item(s): return s
    def numpy(s): return s
    def astype(s, dtype): return s
    @property
    def shape(s): return ()
    @property
    def ndim(s): return 0


class SB:
    """Symbolic bool usable in Python control flow."""
    __slots__ = ('b',)
    __array_ufunc__ = None

    def __new__(cls, b):
        if isinstance(b, bool):
            return b
        o = object.__new__(cls)
        o.b = b
        return o

    def __bool__(s): return ctx().fork_bool(s.b)
    def __and__(s, o): return SB(b_and(s.b, unb(o)))
    __rand__ = __and__
    def __or__(s, o): return SB(b_or(s.b, unb(o)))
    __ror__ = __or__
    def __invert__(s): return SB(b_not(s.b))
    def __eq__(s, o): return SB(b_not(b_xor(s.b, unb(o))))
    def __ne__(s, o): return SB(b_xor(s.b, unb(o)))
    def __hash__(s): return hash(bool(s))
    def num(s): return ite(s.b, D(1, 0), D(0, 0))
    def __add__(s, o): return add(s.num(), o)
    __radd__ = __add__
    def __sub__(s, o): return sub(s.num(), o)
    def __rsub__(s, o): return sub(o, s.num())
    def __mul__(s, o): return mul(s.num(), o)
    __rmul__ = __mul__
    def __neg__(s): return neg(s.num())
    def __int__(s): return int(bool(s))
    def __index__(s): return int(bool(s))
    def __float__(s): return float(bool(s))
    def any(s): return s
    def all(s): return s


def unb(o):
    if isinstance(o, SB):
        return o.b
    if isinstance(o, _Num):
        return b_not(eq(o, 0))
    if z3.is_expr(o):
        return o
    return bool(o)


class D(_Num):
    __slots__ = ('m', 'e', 'lo', 'hi')

    def __init__(self, m, e=0, lo=None, hi=None):
        if not _is_sym(m):
            m = int(m)
            lo = hi = m
        self.m, self.e, self.lo, self.hi = m, e, lo, hi

    @property
    def conc(self):
        return not _is_sym(self.m)

    @property
    def value(self):
        return Fraction(self.m) * Fraction(2) ** self.e

    @property
    def vlo(self):
        return self.lo * Fraction(2) ** self.e

    @property
    def vhi(self):
        return self.hi * Fraction(2) ** self.e

    def __repr__(self):
        return f'{float(self.value)}' if self.conc else f'<{self.m}*2^{self.e} in [{float(self.vlo)},{float(self.vhi)}]>'


class R(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def conc(self):
        return False

    def __repr__(self):
        return f'R({self.t})'


class LG(_Num):
    """fac*log2(v) + c, v a non-negative D known to be > 0 on this path."""
    __slots__ = ('v', 'fac', 'c')

    def __init__(self, v, fac=Fraction(1), c=Fraction(0)):
        self.v, self.fac, self.c = v, fac, c

    @property
    def conc(self):
        return False

    def __repr__(self):
        return f'LG({self.v},{self.fac},{self.c})'


def from_fraction(x: Fraction):
    d = x.denominator
    if d & (d - 1):
        return R(_q(x))
    n, e = x.numerator, -(d.bit_length() - 1)
    if n == 0:
        return D(0, 0)
    z = (n & -n).bit_length() - 1
    return D(n >> z, e + z)


def lift(x):
    """Any Python/numpy scalar -> D | R | LG | float(inf/nan)."""
    if isinstance(x, (D, R, LG)):
        return x
    if isinstance(x, SB):
        return x.num()
    if isinstance(x, bool):
        return D(int(x), 0)
    if z3.is_bool(x) if z3.is_expr(x) else False:
        return ite(x, D(1, 0), D(0, 0))
    if isinstance(x, int):
        return from_fraction(Fraction(x))
    if isinstance(x, Fraction):
        return from_fraction(x)
    if hasattr(x, 'item'):
        return lift(x.item())
    if isinstance(x, float):
        if isinf(x) or isnan(x):
            return x
        return from_fraction(Fraction(x))
    raise Unsupported(f'cannot lift {type(x)}')


def is_special(x):
    return isinstance(x, float)


def to_real(x):
    if isinstance(x, R):
        return x.t
    if isinstance(x, D):
        if x.conc:
            return _q(x.value)
        return z3.ToReal(x.m) * _q(Fraction(2) ** x.e)
    if isinstance(x, LG):
        return uf('log2', to_real(x.v)) * _q(x.fac) + _q(x.c)
    raise Unsupported(f'to_real {x!r}')


_UFS = {}


def uf(name, *args):
    f = _UFS.setdefault((name, len(args)), z3.Function(name, *([z3.RealSort()] * (len(args) + 1))))
    args = [z3.simplify(a, som=True) for a in args]
    app = f(*args)
    apps = ctx().uf_apps.setdefault(name, {})
    if app.get_id() not in apps:
        apps[app.get_id()] = (args, app)
        ctx().uf_order.append((name, args, app))
        _uf_axioms(name, args, app, [v for k, v in apps.items() if k != app.get_id()])
    return app


def _uf_axioms(name, args, app, others):
    c = ctx()
    if name in ('exp', 'rsqrt', 'sqrt'):
        c.assume(app > 0)
    if name == 'rsqrt':
        ax = app * app * args[0] == 1
        c.uf_axioms.add(ax.get_id())
        c.assume(ax)
    if name in ('floorR',):
        pass
    if name == 'log2':
        # strictly increasing
        for (a2,), app2 in others:
            c.assume(z3.And((args[0] < a2) == (app < app2), (args[0] == a2) == (app == app2)))


# -- helpers ----------------------------------------------------------------------------------------------------

def fit(d: D, prec, op):
    """Exactness of a result in a binary float format with `prec` significant bits."""
    if prec and isinstance(d, D):
        b = max(abs(d.lo), abs(d.hi))
        if b > (1 << prec):
            if d.conc:
                m = abs(d.m)
                m >>= (m & -m).bit_length() - 1
                if m <= (1 << prec):
                    return d
            mode = CTX.float_mode if CTX is not None else 'exact'
            STATS.inexact += 1
            if mode == 'exact':
                raise Inexact(f'{op}: {d!r} may need rounding at {prec} bits')
            if mode == 'round':
                return fround(d, prec)
    return d


def fround(d: D, prec):
    """IEEE round-to-nearest-even of m*2^e to prec significant bits (no overflow or underflow); forks on the binade."""
    if d.conc:
        n = max(abs(d.m).bit_length() - prec, 0)
        return from_fraction(Fraction(round(Fraction(d.m, 1 << n)) << n) * Fraction(2) ** d.e)
    c = ctx()
    top = max(abs(d.lo), abs(d.hi)).bit_length() - prec
    a = absolute(D(d.m, 0, d.lo, d.hi))
    n = top
    while n > 0:
        # |m| >= 2^(prec+n-1) needs n bits dropped
        if c.fork_bool(le(D(1 << (prec + n - 1), 0), a)):
            break
        n -= 1
    if n == 0:
        b = (1 << prec) - 1
        return D(d.m, d.e, max(d.lo, -b), min(d.hi, b))
    q = round_even(D(d.m, -n, d.lo, d.hi))
    b = 1 << prec
    return D(q.m, d.e + n, max(q.lo, -b), min(q.hi, b))


def _align(a: D, b: D):
    e = min(a.e, b.e)
    sa, sb = a.e - e, b.e - e
    ma = a.m * (1 << sa) if sa else a.m
    mb = b.m * (1 << sb) if sb else b.m
    return ma, mb, e, a.lo << sa, a.hi << sa, b.lo << sb, b.hi << sb


BIG = 1 << 4000
_VARB = {}       # Int variable id -> bounds
_IV = {}


def interval(t):
    """Syntactic interval of an Int term (sound)."""
    k = t.get_id()
    r = _IV.get(k)
    if r is not None:
        return r[1]
    if len(_IV) > 200000:
        _IV.clear()
    v = _interval(t)
    _IV[k] = (t, v)     # keep t alive so that its id is not reused
    return v


def _interval(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        a = [interval(c) for c in ch]
        return sum(x[0] for x in a), sum(x[1] for x in a)
    if k == z3.Z3_OP_SUB:
        a = [interval(c) for c in ch]
        return a[0][0] - sum(x[1] for x in a[1:]), a[0][1] - sum(x[0] for x in a[1:])
    if k == z3.Z3_OP_UMINUS:
        l, h = interval(ch[0])
        return -h, -l
    if k == z3.Z3_OP_MUL:
        l, h = interval(ch[0])
        for c in ch[1:]:
            l2, h2 = interval(c)
            ps = (l * l2, l * h2, h * l2, h * h2)
            l, h = min(ps), max(ps)
        return l, h
    if k == z3.Z3_OP_ITE:
        a, b = interval(ch[1]), interval(ch[2])
        return min(a[0], b[0]), max(a[1], b[1])
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        n = ch[1].as_long()
        if k == z3.Z3_OP_MOD:
            l, h = interval(ch[0])
            return (l, h) if 0 <= l and h < n else (0, n - 1)
        l, h = interval(ch[0])
        return (l // n if l > -BIG else -BIG), (h // n if h < BIG else BIG)
    if not ch:
        b = _VARB.get(str(t))
        if b is not None:
            return b
    return -BIG, BIG


def _zero(x):
    return isinstance(x, D) and x.conc and x.m == 0


def add(a, b, prec=53):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return a + b
        return a if is_special(a) else b
    if _zero(a):
        return b
    if _zero(b):
        return a
    if isinstance(a, LG) and isinstance(b, D) and b.conc:
        return LG(a.v, a.fac, a.c + b.value)
    if isinstance(b, LG) and isinstance(a, D) and a.conc:
        return LG(b.v, b.fac, b.c + a.value)
    if isinstance(a, D) and isinstance(b, D):
        ma, mb, e, al, ah, bl, bh = _align(a, b)
        lo, hi = al + bl, ah + bh
        m = ma + mb
        if _is_sym(ma) and _is_sym(mb):
            m = z3.simplify(m)
            if z3.is_int_value(m):
                return fit(D(m.as_long(), e), prec, 'add')
            l2, h2 = interval(m)
            lo, hi = max(lo, l2), min(hi, h2)
        return fit(D(m, e, lo, hi), prec, 'add')
    return R(to_real(a) + to_real(b))


def neg(a):
    a = lift(a)
    if is_special(a):
        return -a
    if isinstance(a, D):
        return D(-a.m, a.e, -a.hi, -a.lo)
    if isinstance(a, LG):
        return LG(a.v, -a.fac, -a.c)
    return R(-a.t)


def sub(a, b, prec=53):
    return add(a, neg(lift(b)), prec)


def mul(a, b, prec=53):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        if is_special(b):
            a, b = b, a
        if is_special(b):
            return a * b
        if isnan(a):
            return a
        s = sign(b)
        if isinstance(s, D) and s.conc:
            return float('nan') if s.m == 0 else (a if s.m > 0 else -a)
        c = ctx()
        if c.fork_bool(eq(b, 0)):
            return float('nan')
        return a if c.fork_bool(lt(0, b)) else -a
    for x, y in ((a, b), (b, a)):
        if isinstance(x, D) and x.conc:
            if x.m == 0:
                return D(0, 0)
            if x.value == 1:
                return y
            if isinstance(y, LG):
                return _lg_norm(LG(y.v, y.fac * x.value, y.c * x.value))
    if isinstance(a, D) and isinstance(b, D):
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        if (not a.conc and not b.conc) and a.m is b.m and a.e == b.e:
            lo = 0 if a.lo <= 0 <= a.hi else min(a.lo ** 2, a.hi ** 2)
            return fit(D(a.m * b.m, a.e + b.e, lo, max(ps)), prec, 'mul')
        return fit(D(a.m * b.m, a.e + b.e, min(ps), max(ps)), prec, 'mul')
    return R(to_real(a) * to_real(b))


def _lg_norm(x: LG):
    f = float(x.fac)
    if abs(f - round(f)) < 2e-6 and round(f) != 0:
        x.fac = Fraction(round(f))
    return x


def div(a, b, prec=53):
    a, b = lift(a), lift(b)
    if is_special(b):
        return D(0, 0) if not (is_special(a) or isnan(b)) else float('nan')
    if is_special(a):
        return mul(a, b)
    if isinstance(b, D) and b.conc:
        if b.m == 0:
            if isinstance(a, D) and a.conc:
                return float('nan') if a.m == 0 else (inf if a.m > 0 else -inf)
            c = ctx()
            if c.fork_bool(eq(a, 0)):
                return float('nan')
            return inf if c.fork_bool(lt(0, a)) else -inf
        v = b.value
        if isinstance(a, LG):
            return _lg_norm(LG(a.v, a.fac / v, a.c / v))
        if isinstance(a, D):
            if v == 1:
                return a
            n, d = v.numerator, v.denominator
            if abs(n) == 1 and d & (d - 1) == 0 or (d == 1 and abs(n) & (abs(n) - 1) == 0):
                return mul(a, from_fraction(1 / v), prec)
            if a.conc:
                q = a.value / v
                r = from_fraction(q)
                if isinstance(r, D):
                    return fit(r, prec, 'div')
                return r
            return R(to_real(a) / _q(v))
        return R(to_real(a) / _q(v))
    if isinstance(a, D) and a.conc and a.m == 0:
        return a
    c = ctx()
    if c.fork_bool(eq(b, 0)):
        return div(a, D(0, 0))
    if isinstance(b, D) and _pow2_domain(b):
        return div(a, concretise_d(b), prec)
    if isinstance(b, R) and b.t.decl().name() == 'sqrt':
        return R(to_real(a) * uf('rsqrt', b.t.arg(0)))
    return R(to_real(a) / to_real(b))


def _pow2_domain(b):
    return False


def concretise_d(x: D) -> D:
    if x.conc:
        return x
    m = ctx().fork_int(x.m)
    return from_fraction(Fraction(m) * Fraction(2) ** x.e)


def concretise(x):
    """Fork until x is a concrete Python number."""
    x = lift(x)
    if is_special(x):
        return x
    if isinstance(x, LG):
        raise Unsupported('concretising a logarithm')
    if isinstance(x, R):
        t = z3.simplify(x.t)
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        raise Unsupported('concretising a real')
    d = concretise_d(x)
    v = d.value
    return int(v) if v.denominator == 1 else float(v)


# -- comparisons -------------------------------------------------------------------------------------------------

def lt(a, b):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        if (is_special(a) and isnan(a)) or (is_special(b) and isnan(b)):
            return False
        if is_special(a) and is_special(b):
            return a < b
        return a < 0 if is_special(a) else b > 0
    if isinstance(a, D) and isinstance(b, D):
        ma, mb, _, al, ah, bl, bh = _align(a, b)
        if ah < bl:
            return True
        if al >= bh:
            return False
        return ma < mb
    if isinstance(a, LG) or isinstance(b, LG):
        return _lg_cmp(a, b, strict=True)
    return to_real(a) < to_real(b)


def le(a, b):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        if (is_special(a) and isnan(a)) or (is_special(b) and isnan(b)):
            return False
        if is_special(a) and is_special(b):
            return a <= b
        return a < 0 if is_special(a) else b > 0
    if isinstance(a, D) and isinstance(b, D):
        ma, mb, _, al, ah, bl, bh = _align(a, b)
        if ah <= bl:
            return True
        if al > bh:
            return False
        return ma <= mb
    if isinstance(a, LG) or isinstance(b, LG):
        return _lg_cmp(a, b, strict=False)
    return to_real(a) <= to_real(b)


def eq(a, b):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        return is_special(a) and is_special(b) and a == b
    if isinstance(a, D) and isinstance(b, D):
        ma, mb, _, al, ah, bl, bh = _align(a, b)
        if not _is_sym(ma) and not _is_sym(mb):
            return ma == mb
        if ah < bl or bh < al:
            return False
        return ma == mb
    if isinstance(a, LG) or isinstance(b, LG):
        return b_and(le(a, b), le(b, a))
    return to_real(a) == to_real(b)


def _lg_cmp(a, b, strict):
    if isinstance(a, LG) and isinstance(b, LG) and a.fac == b.fac and a.c == b.c and a.fac > 0:
        return lt(a.v, b.v) if strict else le(a.v, b.v)
    # integer threshold
    if isinstance(a, LG) and isinstance(b, D) and b.conc and a.fac == 1 and (b.value - a.c).denominator == 1:
        t = from_fraction(Fraction(2) ** int(b.value - a.c))
        return lt(a.v, t) if strict else le(a.v, t)
    if isinstance(b, LG) and isinstance(a, D) and a.conc and b.fac == 1 and (a.value - b.c).denominator == 1:
        t = from_fraction(Fraction(2) ** int(a.value - b.c))
        return lt(t, b.v) if strict else le(t, b.v)
    x, y = to_real(a), to_real(b)
    return x < y if strict else x <= y


# -- booleans ----------------------------------------------------------------------------------------------------

def b_not(a):
    a = unb(a)
    return (not a) if isinstance(a, bool) else z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        x = unb(x)
        if x is False:
            return False
        if x is not True:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    return b_not(b_and(*[b_not(x) for x in xs])) if len(xs) != 1 else unb(xs[0])


def b_xor(a, b):
    a, b = unb(a), unb(b)
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return z3.Xor(a, b)


def b_implies(a, b):
    return b_or(b_not(a), b)


def ite(c, a, b):
    c = unb(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    ab, bb = isinstance(a, (bool, SB)) or (z3.is_expr(a) and z3.is_bool(a)), isinstance(b, (bool, SB)) or (z3.is_expr(b) and z3.is_bool(b))
    if ab and bb:
        a, b = unb(a), unb(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else b_not(c))
        return z3.If(c, a, b)
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b) and a == b:
            return a
        return a if ctx().fork_bool(c) else b
    if isinstance(a, D) and isinstance(b, D):
        ma, mb, e, al, ah, bl, bh = _align(a, b)
        if not _is_sym(ma) and not _is_sym(mb) and ma == mb:
            return a
        return D(z3.If(c, ma, mb), e, min(al, bl), max(ah, bh))
    if isinstance(a, LG) or isinstance(b, LG):
        if isinstance(a, LG) and isinstance(b, LG) and a.fac == b.fac and a.c == b.c:
            return LG(ite(c, a.v, b.v), a.fac, a.c)
        return a if ctx().fork_bool(c) else b
    return R(z3.If(c, to_real(a), to_real(b)))


# -- rounding ----------------------------------------------------------------------------------------------------

def floor(a):
    a = lift(a)
    if is_special(a):
        return a
    if isinstance(a, D):
        if a.e >= 0:
            return a
        s = 1 << -a.e
        if a.conc:
            return from_fraction(Fraction(a.m // s))
        m = z3.simplify(a.m)
        return D(m / z3.IntVal(s), 0, a.lo // s, a.hi // s)
    if isinstance(a, LG):
        return _lg_floor(a)
    return _real_floor(a)


REAL_FLOOR_UF = [False]        # floor of a real is an uninterpreted function
REAL_FLOOR_ID = [False]        # floor of a real is the identity (grid fine enough to be ignored, stated by the harness)


def _real_floor(a):
    if REAL_FLOOR_ID[0]:
        return a
    if REAL_FLOOR_UF[0]:
        return R(uf('floorR', a.t))
    return R(z3.ToReal(z3.ToInt(a.t)))


def ceil(a):
    a = lift(a)
    if is_special(a):
        return a
    if isinstance(a, LG):
        return neg(_lg_floor_neg(a))
    return neg(floor(neg(a)))


def _lg_range(v: D):
    """integers j for which 2^j thresholds matter"""
    hi = v.vhi
    lo = max(v.vlo, Fraction(2) ** v.e if not v.conc or v.m else Fraction(1))
    jl, jh = _flog2(lo), _flog2(hi)
    return jl, jh


def _flog2(x: Fraction):
    j = x.numerator.bit_length() - x.denominator.bit_length()
    while Fraction(2) ** j > x:
        j -= 1
    while Fraction(2) ** (j + 1) <= x:
        j += 1
    return j


def _lg_floor(a: LG):
    if a.fac != 1 or a.c.denominator != 1:
        if a.fac == -1 and a.c.denominator == 1:
            return neg(_lg_ceil(LG(a.v, Fraction(1), -a.c)))
        return _real_floor(R(to_real(a)))
    jl, jh = _lg_range(a.v)
    c = int(a.c)
    # floor(log2 v) = jl + sum_{j=jl+1..jh} [v >= 2^j]
    m = jl + c
    terms = []
    for j in range(jl + 1, jh + 1):
        terms.append(le(from_fraction(Fraction(2) ** j), a.v))
    return _count(m, terms)


def _lg_ceil(a: LG):
    jl, jh = _lg_range(a.v)
    c = int(a.c)
    # ceil(log2 v) = jl + sum_{j=jl..jh} [v > 2^j]
    terms = [lt(from_fraction(Fraction(2) ** j), a.v) for j in range(jl, jh + 1)]
    return _count(jl + c, terms)


def _lg_floor_neg(a: LG):
    """floor(-a)"""
    if a.fac == 1 and a.c.denominator == 1:
        return neg(_lg_ceil(a))
    return floor(neg(a))


def _count(base, terms):
    lo = base
    hi = base
    m = None
    for t in terms:
        if t is True:
            lo += 1
            hi += 1
            base += 1
        elif t is not False:
            x = z3.If(t, z3.IntVal(1), z3.IntVal(0))
            m = x if m is None else m + x
            hi += 1
    if m is None:
        return D(base, 0)
    return D(m + base, 0, lo, hi)


def trunc(a):
    a = lift(a)
    if is_special(a):
        return a
    if isinstance(a, D):
        if a.e >= 0:
            return a
        if a.lo >= 0:
            return floor(a)
        if a.hi <= 0:
            return ceil(a)
    return ite(lt(a, 0), ceil(a), floor(a))


def known(d):
    if isinstance(d, D) and not d.conc and CTX is not None and CTX.known:
        t = z3.simplify(d.m)
        k = CTX.known.get(t.get_id())
        if k is not None:
            return from_fraction(Fraction(k[1]) * Fraction(2) ** d.e)
    return d


def round_even(a):
    return known(_round_even(a))


def _round_even(a):
    a = lift(a)
    if is_special(a):
        return a
    if isinstance(a, D) and a.e >= 0:
        return a
    if isinstance(a, D) and a.conc:
        return from_fraction(Fraction(round(a.value)))
    half = from_fraction(Fraction(1, 2))
    q = floor(add(a, half, None))
    if isinstance(a, D):
        tie = eq(sub(q, a, None), half)
        odd = eq(floormod(q, D(2, 0)), 1)
        return ite(b_and(tie, odd), sub(q, 1, None), q)
    ti = z3.ToInt(to_real(a) + z3.Q(1, 2))
    tie = z3.ToReal(ti) - to_real(a) == z3.Q(1, 2)
    # integer result with unknown bounds; callers that need it as a D fork it
    r = z3.If(z3.And(tie, ti % 2 == 1), ti - 1, ti)
    return real_int(r)


def real_int(term):
    """Int term of unknown bounds as a scalar; bounds found by the solver (needed for D)."""
    c = ctx()
    lo, hi = int_bounds(c, term)
    return D(term, 0, lo, hi)


def int_bounds(c, t, start=64):
    """Sound bounds of an Int term on the current path, found by bisection with the solver."""
    lim = start
    while True:
        if _check(c.solver, z3.Or(t > lim, t < -lim)) == z3.unsat:
            break
        lim *= 16
        if lim > 1 << 40:
            raise Unsupported('unbounded integer')
    lo, hi = -lim, lim
    a, b = -lim, lim
    while a < b:
        mid = (a + b) // 2
        if _check(c.solver, t > mid) == z3.unsat:
            b = mid
        else:
            a = mid + 1
    hi = a
    a, b = -lim, lim
    while a < b:
        mid = -((-a - b) // 2)
        if _check(c.solver, t < mid) == z3.unsat:
            a = mid
        else:
            b = mid - 1
    lo = a
    return lo, hi


def floormod(a, b, prec=53):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        raise Unsupported('mod of special')
    if isinstance(a, D) and isinstance(b, D) and b.conc and b.m > 0:
        # common exponent, then integer mod
        e = min(a.e, b.e)
        ma = a.m * (1 << (a.e - e)) if a.e > e else a.m
        mb = b.m << (b.e - e)
        al, ah = a.lo << (a.e - e), a.hi << (a.e - e)
        if 0 <= al and ah < mb:
            return a
        if a.conc:
            return from_fraction(a.value % b.value)
        return D(z3.simplify(ma) % z3.IntVal(mb), e, 0, mb - 1)
    if isinstance(b, D) and b.conc and b.m < 0:
        return neg(floormod(neg(a), neg(b)))
    if isinstance(b, D) and not b.conc:
        return floormod(a, concretise_d(b), prec)
    q = floor(div(a, b))
    return sub(a, mul(q, b))


def truncmod(a, b):
    """C fmod"""
    a, b = lift(a), lift(b)
    r = floormod(absolute(a), absolute(b))
    return ite(lt(a, 0), neg(r), r)


# -- min / max / abs / sign --------------------------------------------------------------------------------------

def maximum(a, b):
    a, b = lift(a), lift(b)
    if is_special(a) or is_special(b):
        for x, y in ((a, b), (b, a)):
            if is_special(x):
                if isnan(x):
                    return x
                return y if x < 0 else (x if not (is_special(y) and isnan(y)) else y)
    return ite(le(b, a), a, b)


def minimum(a, b):
    return neg(maximum(neg(lift(a)), neg(lift(b)))) if (is_special(a) or is_special(b)) else _min(lift(a), lift(b))


def _min(a, b):
    if is_special(a) or is_special(b):
        return neg(maximum(neg(a), neg(b)))
    return ite(le(a, b), a, b)


def absolute(a):
    a = lift(a)
    if is_special(a):
        return abs(a)
    if isinstance(a, D):
        if a.lo >= 0:
            return a
        if a.hi <= 0:
            return neg(a)
        return D(z3.If(a.m < 0, -a.m, a.m), a.e, 0, max(-a.lo, a.hi))
    return ite(lt(a, 0), neg(a), a)


def sign(a):
    a = lift(a)
    if is_special(a):
        return D(1 if a > 0 else -1, 0)
    if isinstance(a, D):
        if a.conc:
            return D((a.m > 0) - (a.m < 0), 0)
        if a.lo > 0:
            return D(1, 0)
        if a.hi < 0:
            return D(-1, 0)
    return ite(lt(a, 0), D(-1, 0), ite(eq(a, 0), D(0, 0), D(1, 0)))


# -- transcendental ----------------------------------------------------------------------------------------------

def log_any(a, fac):
    """fac * log2(a); forks on a == 0."""
    a = lift(a)
    if is_special(a):
        return a if a > 0 else float('nan')
    if isinstance(a, D):
        c = None if a.conc else ctx()
        if a.conc:
            if a.m == 0:
                return -inf
            if a.m < 0:
                return float('nan')
            v = a.value
            if fac == 1 and (v.numerator & (v.numerator - 1)) == 0 and (v.denominator & (v.denominator - 1)) == 0:
                return D(_flog2(v), 0)
            return LG(a, Fraction(fac))
        if a.lo < 0 and c.fork_bool(lt(a, 0)):
            return float('nan')
        if a.lo <= 0:
            if c.fork_bool(eq(a, 0)):
                return -inf
            a = D(a.m, a.e, max(a.lo, 1), a.hi)
        return LG(a, Fraction(fac))
    return R(uf('log2', to_real(a)) * _q(Fraction(fac)))


def power(a, b, prec=53):
    a, b = lift(a), lift(b)
    if isinstance(b, LG) and isinstance(a, D) and a.conc and a.value == 2 and b.fac == 1 and b.c.denominator == 1:
        return mul(b.v, from_fraction(Fraction(2) ** int(b.c)))
    if is_special(b):
        if isinstance(a, D) and a.conc and a.value > 1:
            return inf if b > 0 else D(0, 0)
        raise Unsupported('pow special')
    if isinstance(b, D):
        if not b.conc:
            b = concretise_d(b)
        bv = b.value
        if bv.denominator == 1:
            n = int(bv)
            if isinstance(a, D) and a.conc:
                if a.m == 0:
                    return D(1, 0) if n == 0 else (D(0, 0) if n > 0 else inf)
                return fit(from_fraction(a.value ** n), prec, 'pow')
            if n < 0:
                return div(D(1, 0), power(a, D(-n, 0), prec), prec)
            r = D(1, 0)
            for _ in range(n):
                r = mul(r, a, prec)
            return r
        if isinstance(a, D) and a.conc and a.value == 2:
            return R(uf('exp2', _q(bv)))
        if bv == Fraction(1, 2):
            return R(uf('sqrt', to_real(a)))
    if isinstance(a, D) and a.conc and a.value == 2:
        return R(uf('exp2', to_real(b)))
    return R(uf('pow', to_real(a), to_real(b)))


def unary_uf(name):
    def f(a):
        return R(uf(name, to_real(lift(a))))
    return f


# -- model extraction --------------------------------------------------------------------------------------------

def eval_scalar(model, x):
    """Value of a scalar under a z3 model: Fraction, float(inf/nan) or bool."""
    if isinstance(x, SB):
        x = x.b
    if isinstance(x, bool):
        return x
    if z3.is_expr(x) and z3.is_bool(x):
        return z3.is_true(model.eval(x, model_completion=True))
    x = lift(x)
    if is_special(x):
        return x
    if isinstance(x, D):
        if x.conc:
            return x.value
        return model.eval(x.m, model_completion=True).as_long() * Fraction(2) ** x.e
    if isinstance(x, LG):
        v = eval_scalar(model, x.v)
        if v > 0:
            return Fraction(math.log2(v)) * x.fac + x.c
    t = model.eval(to_real(x), model_completion=True)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f'cannot evaluate {t}')


# -- claims ------------------------------------------------------------------------------------------------------

TOL = Fraction(0)


def teq(a, b):
    """Equality in a claim; on concrete replays of claims made over the reals, up to the harness tolerance."""
    if TOL and CTX is None:
        a, b = lift(a), lift(b)
        if is_special(a) or is_special(b):
            return eq(a, b)
        return le(absolute(sub(a, b, None)), from_fraction(TOL) if not isinstance(TOL, (D, R)) else TOL)
    return eq(a, b)


def near(a, b, tol=0):
    """Equality of reals in a claim. Polynomial identities are decided by normalisation; otherwise a violation must exceed twice
    the tolerance of the replay, so that a counterexample over the reals shows in floating point."""
    a, b = lift(a), lift(b)
    if CTX is None or is_special(a) or is_special(b) or (isinstance(a, D) and isinstance(b, D)):
        return teq(a, b)
    d = z3.simplify(to_real(a) - to_real(b), som=True)
    if z3.is_rational_value(d) and d.numerator_as_long() == 0:
        return True
    t = _q(2 * Fraction(tol))
    return z3.And(d <= t, d >= -t)


def claim_all(f, *arrs):
    """Conjunction of f over broadcast object arrays."""
    import numpy as np
    bs = np.broadcast_arrays(*arrs)
    return b_and(*[unb(f(*t)) for t in zip(*[b.reshape(-1) for b in bs])])


def ctx_concrete(x):
    """Concrete rational value of a dyadic scalar on this path (forks when it is not determined)."""
    if not isinstance(x, D):
        x = lift(x)
    if not isinstance(x, D):
        raise Unsupported('concrete value of a non-dyadic scalar')
    m = x.m if isinstance(x.m, int) else ctx().fork_int(x.m)
    return Fraction(m) * Fraction(2) ** x.e
