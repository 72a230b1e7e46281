"""Harness execution: symbolic exploration, obligations, replay and validation against the real code."""
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HGQSYM_REPO', '/repo')       # another tree only for trials of planted changes
_out = sys.stdout
ENV0 = dict(os.environ)       # before any import of the code under test changes it (replays run in a fresh process)


def emit(d):
    _out.write('@@' + json.dumps(d) + '\n')
    _out.flush()


def boot(hooks=True):
    sys.path.insert(0, REPO + '/src')
    import hgq_tf_compat  # noqa: F401
    import warnings
    warnings.filterwarnings('ignore')
    import tensorflow as tf
    tf.get_logger().setLevel('ERROR')
    tf.config.threading.set_intra_op_parallelism_threads(2)
    import HGQ
    assert HGQ.__file__.startswith(REPO + '/src/'), HGQ.__file__
    if hooks:
        from . import tfhook
        tfhook.install()


class Harness:
    """One symbolic experiment on the real code.

    setup()          build the real objects (once per process)
    inputs(v)        declare inputs: v is a Vars object (symbolic) -> dict of arrays
    run(ins)         execute the real code on ins (symbolic arrays, or numpy arrays when replaying) -> dict of outputs
    prop(ins, outs)  list of (label, bool-like) over core scalars; same code for symbolic and concrete values
    """
    functions = ()
    bounds = ''
    assumptions = ()
    float_mode = 'exact'
    tol = 0                      # absolute tolerance for replay comparisons (claims over the reals)
    max_paths = 20000
    validate = 2                 # number of paths whose model is replayed
    raises = ()                  # labels: exceptions are part of the property when run() catches them itself
    deadline_s = 700
    cost = 0                     # scheduling hint: expensive harnesses first
    timeout_ms = 60000

    def __init__(self, name, **kw):
        self.name = name
        for k, v in kw.items():
            setattr(self, k, v)
        self._ready = False

    def setup(self):
        pass

    def inputs(self, v):
        return {}

    def assume(self, ins):
        return True

    def run(self, ins):
        raise NotImplementedError

    def prop(self, ins, outs):
        raise NotImplementedError

    def ready(self):
        if not self._ready:
            self.setup()
            self._ready = True


class Vars:
    """Declares symbolic inputs in a context, or reads concrete values for a replay."""

    def __init__(self, c=None, values=None):
        self.c = c
        self.values = values
        self.decl = {}           # name -> (list of scalars, shape, dtype)

    def _mk(self, name, shape, f, dtype):
        import numpy as np
        from .symarray import SymArray
        n = int(np.prod(shape)) if len(shape) else 1
        if self.c is None:
            vals = self.values[name]
            if np.dtype(dtype).kind == 'b':
                return np.array([bool(v) for v in vals], dtype=dtype).reshape(shape)
            return np.array([float(Fraction(v)) if np.dtype(dtype).kind == 'f' else int(Fraction(v)) for v in vals], dtype=dtype).reshape(shape)
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = f(f'{name}_{i}' if len(shape) else name)
        self.decl[name] = list(o)
        return SymArray(o.reshape(shape), dtype)

    def dyadic(self, name, shape, e, lo, hi, dtype='float32'):
        """values k*2^e, k in [lo, hi] (inclusive integers)"""
        return self._mk(name, shape, lambda n: self.c.dyadic(n, e, lo, hi), dtype)

    def ints(self, name, shape, lo, hi, dtype='int32'):
        return self._mk(name, shape, lambda n: self.c.dyadic(n, 0, lo, hi), dtype)

    def real(self, name, shape, lo=None, hi=None, dtype='float32'):
        return self._mk(name, shape, lambda n: self.c.real(n, lo, hi), dtype)

    def bools(self, name, shape):
        return self._mk(name, shape, lambda n: self.c.boolean(n), 'bool')

    def model_values(self, model):
        from . import core
        out = {}
        for k, xs in self.decl.items():
            out[k] = [str(core.eval_scalar(model, x)) if not isinstance(core.eval_scalar(model, x), bool) else core.eval_scalar(model, x) for x in xs]
        return out


def put(var, val):
    """Give a tf.Variable a value: in the symbolic overlay, or for real."""
    from . import core
    from .tfgraph import STORE
    from .symarray import SymArray
    import numpy as np
    if core.CTX is not None:
        STORE.set(var, val)
    else:
        var.assign(np.asarray(val, dtype=var.dtype.as_numpy_dtype))


def get(var):
    """Current value of a tf.Variable in the overlay or for real."""
    from . import core
    from .tfgraph import STORE
    if core.CTX is not None and STORE.has(var):
        return STORE.get(var)
    from . import tfhook
    f = tfhook._orig.get('numpy')
    return f(var) if f else var.numpy()


def tf_call(fn, *args, key=None):
    """Call a Python function of TensorFlow ops (e.g. one that takes gradients) on the inputs."""
    from . import core
    import numpy as np
    import tensorflow as tf
    if core.CTX is not None:
        from . import tfgraph
        return tfgraph.call_symbolic(fn, *args, key=key)
    return fn(*[tf.constant(np.asarray(a)) for a in args])


_DRAWS = []


def draws():
    """All uniform draws the code under test made so far in this run, in order (object array of scalars)."""
    import numpy as np
    from . import core, tfgraph
    if core.CTX is not None:
        xs = [x for arr in tfgraph.RANDOM_LOG for x in arr.reshape(-1)]
    else:
        xs = [core.from_fraction(Fraction(x)) for x in _DRAWS]
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


def A(x):
    """Object array of core scalars of any tensor-like."""
    from . import tfhook
    from .symarray import obj
    return obj(tfhook.unwrap(x))


def exc_text(e):
    return f'{type(e).__name__}: {str(e)[:300]}'


SAFE_EXC = ('Unsupported', 'Inexact')


def explore_harness(h, float_mode, rng, tier='quick'):
    from . import core, tfgraph
    from .tfgraph import STORE
    import z3
    found = []          # (label, values, detail)
    incon = []
    models = []
    t_end = min(time.time() + (h.deadline_s if tier != 'quick' else min(h.deadline_s, 240)), float(os.environ.get('HGQSYM_DEADLINE', '1e18')))
    state = {'n': 0}

    def path(c):
        STORE.vals = {}
        tfgraph.RANDOM_LOG.clear()
        v = Vars(c)
        ins = h.inputs(v)
        a = h.assume(ins)
        for b in (a if isinstance(a, (list, tuple)) else [a]):
            c.assume(core.unb(b))
        if not c.feasible():
            raise core.Infeasible()
        outs, exc = None, None
        try:
            outs = h.run(ins)
        except (core.Unsupported, core.Inexact):
            raise
        except Exception as e:   # an exception of the code under test on this path
            exc = e
        if h.rand_used:
            v.decl['__rand__'] = [x for arr in tfgraph.RANDOM_LOG for x in arr.reshape(-1)]
        if exc is not None:
            r = core._check(c.solver)
            if r == z3.sat:
                found.append((f'raises {type(exc).__name__}', v.model_values(c.solver.model()), exc_text(exc), traceback.format_exception(exc)[-6:]))
                if len(found) > 3:
                    raise StopExplore()
            return
        claims = h.prop(ins, outs)
        if not claims:
            raise RuntimeError('harness produced no claim')
        bs = [(l, core.unb(b)) for l, b in claims]
        allc = core.b_and(*[b for _, b in bs])
        m = c.refute(allc) if len(bs) > 1 else None
        if len(bs) == 1 or m is not None:
            for l, b in bs:
                m = c.refute(b)
                if m is None:
                    continue
                if m == 'unknown':
                    incon.append(l)
                else:
                    found.append((l, v.model_values(m), '', None))
                    break
        else:
            core.STATS.obligations += len(bs) - 1
            core.STATS.discharged += len(bs) - 1
        state['n'] += 1
        # reservoir of path models for validation and for the vacuity witness
        if len(models) < h.validate or rng.random() < h.validate / state['n']:
            r = z3.sat if any(isinstance(x, core.R) for x in c.inputs.values()) else core._check(c.solver)
            if r == z3.sat:
                try:
                    mod = nice_model(c)
                except z3.Z3Exception:
                    return
                item = (v.model_values(mod), eval_outs(mod, outs))
                if len(models) < h.validate:
                    models.append(item)
                else:
                    models[rng.randrange(len(models))] = item
        if len(found) > 3:
            raise StopExplore()

    try:
        core.explore(path, max_paths=h.max_paths, deadline=t_end, float_mode=float_mode, timeout_ms=h.timeout_ms)
    except StopExplore:
        pass
    return found, incon, models, state['n']


def nice_model(c):
    """A model of the path; prefers non-zero inputs so that validation traces are not trivial."""
    from . import core
    import z3
    if any(isinstance(x, core.R) for x in c.inputs.values()):
        rng = random.Random(len(c.inputs))
        for n in range(20):
            m = core.pinned_model(c, rng, positive=n > 10)
            if m is not None:
                return m
    s = c.solver
    s.push()
    for name, x in list(c.inputs.items())[:60]:
        t = x.m if isinstance(x, core.D) else x.t if isinstance(x, core.R) else None
        if t is None:
            continue
        s.push()
        s.add(t != 0)
        if core._check(s) != z3.sat:
            s.pop()
    core._check(s)
    m = s.model()
    while s.num_scopes() > 0:
        s.pop()
    return m


class StopExplore(BaseException):
    pass


class Done(Exception):
    pass


def flat_outs(outs, prefix=''):
    items = []
    if isinstance(outs, dict):
        for k in outs:
            items += flat_outs(outs[k], f'{prefix}.{k}' if prefix else str(k))
    elif isinstance(outs, (list, tuple)):
        for i, x in enumerate(outs):
            items += flat_outs(x, f'{prefix}[{i}]')
    else:
        items.append((prefix, outs))
    return items


def eval_outs(model, outs):
    from . import core
    res = {}
    for k, x in flat_outs(outs):
        if isinstance(x, (str, type(None))):
            res[k] = x
            continue
        try:
            res[k] = [core.eval_scalar(model, e) for e in A(x).reshape(-1)]
        except (core.Unsupported, TypeError, ValueError):
            res[k] = None
    return res


def concrete_run(h, values, fresh=False):
    """Run the harness on the real code.  Returns (ins, outs, exc)."""
    from . import tfhook
    with tfhook.real_world():
        v = Vars(None, values)
        ins = h.inputs(v)
        rand = values.get('__rand__')
        _DRAWS[:] = []
        undo = patch_random(rand) if rand is not None else None
        try:
            return ins, h.run(ins), None
        except Exception as e:
            return ins, None, e
        finally:
            if undo:
                undo()


def patch_random(vals):
    """Environment stub for replays: tf.random.uniform returns the recorded draws."""
    import tensorflow as tf
    it = [float(Fraction(v)) for v in vals]
    pos = [0]
    orig = tf.random.uniform

    def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
        import numpy as np
        shape = [int(s) for s in (tf.get_static_value(shape) if tf.is_tensor(shape) else shape)]
        n = int(np.prod(shape))
        xs = (it[pos[0]:pos[0] + n] + [0.] * n)[:n]
        pos[0] += n
        _DRAWS.extend(xs)
        maxval = 1 if maxval is None else maxval
        r = tf.constant(np.array(xs, dtype='float32').reshape(shape))
        return r * (float(maxval) - float(minval)) + float(minval)
    tf.random.uniform = uniform
    from . import tfhook
    for p in list(tfhook._proxies.values()):
        p.__dict__['_cache'].pop('uniform', None)
    eager = tf.config.functions_run_eagerly()
    tf.config.run_functions_eagerly(True)

    def undo():
        tf.random.uniform = orig
        tf.config.run_functions_eagerly(eager)
        for p in list(tfhook._proxies.values()):
            p.__dict__['_cache'].pop('uniform', None)
    return undo


def concrete_verdict(h, values):
    """(failed labels, detail) of the property on the real code for concrete inputs."""
    from . import core, tfhook
    ins, outs, exc = concrete_run(h, values)
    if exc is not None:
        return [f'raises {type(exc).__name__}'], exc_text(exc), None
    with tfhook.real_world():
        core.TOL = Fraction(h.tol)
        try:
            claims = h.prop(ins, outs)
        finally:
            core.TOL = Fraction(0)
    bad = [l for l, b in claims if not concrete_true(b)]
    return bad, show(outs), outs


def concrete_true(b):
    from . import core
    b = core.unb(b)
    if isinstance(b, bool):
        return b
    import z3
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    # uninterpreted functions over concrete arguments cannot be decided concretely
    raise core.Unsupported('claim not decidable on concrete values')


def show(outs):
    r = {}
    for k, x in flat_outs(outs):
        try:
            import numpy as np
            r[k] = np.asarray(x).tolist() if not isinstance(x, (str, type(None))) else x
        except Exception:
            r[k] = str(x)[:200]
    s = json.dumps(r, default=str)
    return s[:1500]


def same_outs(sym, outs, tol):
    """Do the symbolic outputs under a model equal the real outputs?"""
    for k, x in flat_outs(outs):
        s = sym.get(k)
        if s is None:
            continue
        if isinstance(x, (str, type(None))):
            if s != x:
                return False, k
            continue
        from . import core
        r = [core.eval_scalar(None, e) for e in A(x).reshape(-1)]
        if len(r) != len(s):
            return False, k
        for a, b in zip(r, s):
            if isinstance(a, float) or isinstance(b, float):
                if not (a == b or (a != a and b != b)):
                    return False, f'{k}: real {a} symbolic {b}'
            elif abs(Fraction(a) - Fraction(b)) > tol:
                return False, f'{k}: real {float(a)} symbolic {float(b)}'
    return True, ''


def run_harness(pid, tier, h):
    from . import core
    t0 = time.time()
    core.STATS.__init__()
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 1000003 + hash_str(h.name))
    res = dict(name=h.name, status='ok', violations=[], inconclusive=[], functions=list(h.functions), bounds=h.bounds, assumptions=list(h.assumptions))
    try:
        try:
            h.ready()
        except (core.Unsupported, core.Inexact):
            raise
        except Exception as e:    # the code under test cannot even be set up: decided by a fresh process without hooks
            tb = ''.join(traceback.format_exception(e))[-1500:]
            path = write_replay(pid, tier, h, {}, f'setup raises {type(e).__name__}')
            bad, det = replay_subprocess(path)
            if not bad:
                raise
            res['violations'].append(dict(label=bad[0], replay=path, detail=f'{det} {tb}'))
            raise Done()
        mode = h.float_mode
        modes = [mode] + [m for m in ('round', 'real') if m != mode and mode == 'exact']
        last = None
        for m in modes:
            try:
                found, incon, models, n = explore_harness(h, m, rng, tier)
                res['float_mode'] = m
                last = None
                break
            except (core.Inexact, core.Unsupported) as e:
                last = e
                if m == 'real' and isinstance(e, core.Unsupported):
                    break
        if last is not None:
            raise last
        res['inconclusive'] = incon
        for label, values, detail, tb in found:
            path = write_replay(pid, tier, h, values, label)
            bad, det = replay_subprocess(path)
            if bad:
                res['violations'].append(dict(label=bad[0], replay=path, detail=f'{det} inputs={json.dumps(values)[:400]} {detail}'))
            else:
                res['inconclusive'].append(f'counterexample for "{label}" does not reproduce on the real code: {path} {det} {detail} {"".join(tb or [])[-900:]}')
        if n == 0 and not found:
            res['status'] = 'error'
            res['message'] = 'vacuous: no path reached the assertion'
        ok = 0
        for values, sym in models:
            bad, det, outs = concrete_verdict_safe(h, values)
            if bad:
                path = write_replay(pid, tier, h, values, bad[0])
                bad2, det2 = replay_subprocess(path)
                if bad2:
                    res['violations'].append(dict(label=bad2[0], replay=path, detail=f'{det2} inputs={json.dumps(values)[:400]}'))
                else:
                    res['inconclusive'].append(f'in-process replay failed "{bad[0]}" but fresh replay passed: {path}')
                continue
            if outs is not None:
                same, where = same_outs(sym, outs, Fraction(h.tol))
                if same:
                    ok += 1
                elif not found:
                    res['inconclusive'].append(f'encoding disagrees with the real code at {where} inputs={json.dumps(values)[:600]}')
        res['validated'] = ok
        if models:
            res['sample'] = dict(inputs=models[0][0], outputs={k: [str(x) for x in v][:12] if isinstance(v, list) else v for k, v in list(models[0][1].items())[:8]})
        # reproduced violations make leftovers of the same harness irrelevant
        if res['violations']:
            res['inconclusive'] = []
    except Done:
        pass
    except (core.Unsupported, core.Inexact) as e:
        res['inconclusive'].append(f'not encodable: {exc_text(e)}' + ''.join(traceback.format_exception(e))[-700:])
    except Exception as e:
        res['status'] = 'error'
        res['message'] = ''.join(traceback.format_exception(e))[-2500:]
    st = core.STATS
    res['stats'] = dict(queries=st.queries, unsat=st.unsat, sat=st.sat, unknown=st.unknown, solver_s=st.solver_s, paths=st.paths, forks=st.forks,
                        obligations=st.obligations, discharged=st.discharged, trivial=st.trivial, truncated=st.truncated, inexact=st.inexact, ops=st.ops)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def concrete_verdict_safe(h, values):
    from . import core
    try:
        return concrete_verdict(h, values)
    except core.Unsupported:
        ins, outs, exc = concrete_run(h, values)
        return [], '', outs


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def write_replay(pid, tier, h, values, label):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    key = hash_str(json.dumps(values, sort_keys=True) + label)
    safe = ''.join(ch if ch.isalnum() else '_' for ch in h.name)[:80]
    p = os.path.join(d, f'{pid}_{safe}_{key:08x}.json')
    json.dump(dict(property=pid, tier=tier, harness=h.name, label=label, values=values,
                   how='python -m hgqsym.run --replay <this file>   (cwd /verif, PYTHONPATH=/verif, interpreter /opt/venv/bin/python)'), open(p, 'w'), indent=1)
    return p


def replay_subprocess(path):
    from .run import PY, child_env
    try:
        p = subprocess.run([PY, '-B', '-m', 'hgqsym.run', '--replay', path], capture_output=True, text=True, env=child_env(ENV0), cwd=ROOT, timeout=300)
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    for l in p.stdout.splitlines():
        if l.startswith('@@'):
            d = json.loads(l[2:])
            return d['bad'], d['detail']
    return None, p.stderr[-500:]


def replay_file(path):
    d = json.load(open(path))
    boot(hooks=False)
    h = next(x for x in load(d['property'], d['tier']) if x.name == d['harness'])
    try:
        h.ready()
        bad, detail, _ = concrete_verdict(h, d['values'])
    except Exception as e:
        if not d['label'].startswith('setup raises'):
            raise
        bad, detail = [f'setup raises {type(e).__name__}'], exc_text(e)
    emit(dict(bad=bad, detail=detail))
    print('property', d['property'], 'VIOLATED: ' + ', '.join(bad) if bad else 'holds', detail[:1000])
    return 1 if bad else 0


def load(pid, tier):
    m = importlib.import_module(f'props.{pid.lower()}')
    hs = m.harnesses(tier)
    for h in hs:
        if not hasattr(h, 'rand_used'):
            h.rand_used = False
    only = os.environ.get('HGQSYM_ONLY')
    if only:
        hs = [h for h in hs if only in h.name]
    assert len({h.name for h in hs}) == len(hs), 'duplicate harness names'
    return hs


def main(pid, tier):
    global _out
    _out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    boot()
    hs = {h.name: h for h in load(pid, tier)}
    emit(dict(names=sorted(hs, key=lambda n: -hs[n].cost)))
    for line in sys.stdin:
        emit(run_harness(pid, tier, hs[line.strip()]))
