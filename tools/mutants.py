"""tools/mutants.py OUT SEED PER_FILE [FILE...]   mutation campaign on scratch copies: which generated changes does no check notice?

Each mutant is one small change of an expression or statement of a source file; the checks anchored in that file are run,
most specific first, until one reports a violation.  Survivors are printed for review (equivalent, out of scope, or missed).
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('HGQSYM_REPO', '/repo')
FILES = {
    'quantizer/quantizer.py': 'C01 C04 C05 C20 C21 C02 C03',
    'layers/base.py': 'C10 C12 C20 C03 C17 C08 C05',
    'layers/dense.py': 'C10 C11 C12 C17 C08',
    'layers/conv.py': 'C10 C11 C12 C17 C08',
    'layers/batchnorm_base.py': 'C11 C17 C08',
    'layers/misc.py': 'C10 C04 C13 C17 C05 C08',
    'layers/passive_layers.py': 'C13 C17 C09',
    'proxy/convert.py': 'C09 C08 C16 C14',
    'proxy/fixed_point_quantizer.py': 'C07 C16 C17 C18',
    'proxy/precision_derivation.py': 'C15 C16 C14',
    'proxy/unary_lut.py': 'C14 C17',
    'proxy/plugins/qkeras.py': 'C18',
    'bops/bops.py': 'C19 C12',
    'utils/utils.py': 'C15 C06 C17 C21',
}
SWAP = {'floor': 'ceil', 'ceil': 'floor', 'round': 'floor', 'maximum': 'minimum', 'minimum': 'maximum', 'max': 'min', 'min': 'max', 'reduce_max': 'reduce_min', 'reduce_min': 'reduce_max',
        'any': 'all', 'all': 'any', 'zeros_like': 'ones_like', 'ones_like': 'zeros_like', 'stop_gradient': 'identity', 'reduce_sum': 'reduce_max', 'abs': 'identity'}
OPS = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Pow: '*'}


def mutants(src):
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)  # noqa: E731
    seg = lambda n: b[slice(*pos(n))].decode()  # noqa: E731
    out = []

    def rep(a, z, new, n, what):
        out.append((b[:a].decode() + new + b[z:].decode(), n.lineno, what))

    def visit(n):
        if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('warn', 'print', 'ValueError', 'NotImplementedError'):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            new = OPS.get(type(n.ops[0]))
            if new:
                rep(*pos(n), f'{seg(n.left)} {new} {seg(n.comparators[0])}', n, f'{seg(n)} -> {new}')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
            rep(*pos(n), f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', n, f'{seg(n)} -> {BIN[type(n.op)]}')
        if isinstance(n, ast.Constant) and isinstance(n.value, (bool, int, float)):
            v = (not n.value) if isinstance(n.value, bool) else n.value + 1 if isinstance(n.value, int) else n.value / 2 if n.value else .5
            rep(*pos(n), repr(v), n, f'{n.value} -> {v}')
        if isinstance(n, ast.BoolOp):
            new = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(*pos(n), '(' + new.join(seg(v) for v in n.values) + ')', n, f'{seg(n)} ->{new}')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            rep(*pos(n), f'({seg(n.operand)})', n, f'{seg(n)} -> without {type(n.op).__name__}')
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            m = SWAP[n.attr]
            if m == 'identity':
                rep(*pos(n), '(lambda x, *a: x)', n, f'{seg(n)} -> identity')
            else:
                rep(*pos(n), f'{seg(n.value)}.{m}', n, f'{seg(n)} -> {m}')
        if isinstance(n, ast.IfExp):
            rep(*pos(n), f'({seg(n.body)})', n, f'{seg(n)} -> first')
            rep(*pos(n), f'({seg(n.orelse)})', n, f'{seg(n)} -> second')
        if isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
            rep(*pos(n.test), f'not ({seg(n.test)})', n, f'if {seg(n.test)} -> not')
        if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            rep(*pos(n), 'pass', n, f'{seg(n)[:60]} -> pass')
        if isinstance(n, ast.keyword) and n.arg and not isinstance(n.value, ast.Constant):
            pass
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                for d in c.decorator_list:
                    d.skip = True
            if getattr(c, 'skip', False) or isinstance(n, (ast.FunctionDef, ast.arg)) and c is getattr(n, 'returns', None) or isinstance(c, ast.arg):
                continue
            if isinstance(n, ast.AnnAssign) and c is n.annotation:
                continue
            visit(c)
    t = ast.parse(src)
    for n in t.body:
        if not isinstance(n, ast.Assign):        # module level constants: defaults, not behaviour
            visit(n)
    good = []
    for s, l, w in out:
        try:
            ast.parse(s)
            good.append((s, l, w))
        except SyntaxError:
            pass
    return good


def trial(job):
    f, src, line, what, checks = job
    d = tempfile.mkdtemp(prefix='mutc', dir='/tmp')
    try:
        shutil.copytree(R + '/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{d}/src/HGQ/{f}', 'w').write(src)
        env = dict(os.environ, HGQSYM_REPO=d, HGQSYM_FAILFAST='1', HGQSYM_JOBS='2', PYTHONPATH=V)
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import sys; sys.path.insert(0, "%s/src"); import hgq_tf_compat, HGQ' % d], capture_output=True, text=True, env=dict(env, TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1'))
        if r.returncode:
            return dict(file=f, line=line, what=what, caught='import')
        rcs = {}
        for c in checks:
            r = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'hgqsym.run', c, 'quick'], capture_output=True, text=True, env=env, cwd=V)
            rcs[c] = r.returncode
            if r.returncode == 1:
                return dict(file=f, line=line, what=what, caught=c, rcs=rcs)
        return dict(file=f, line=line, what=what, caught=None, rcs=rcs)
    except Exception as e:
        return dict(file=f, line=line, what=what, caught=None, error=str(e))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    out, seed, per, *files = sys.argv[1:]
    rng = random.Random(int(seed))
    jobs = []
    for f, cs in FILES.items():
        if files and f not in files:
            continue
        ms = mutants(open(f'{R}/src/HGQ/{f}').read())
        print(f, len(ms), flush=True)
        for s, l, w in rng.sample(ms, min(int(per), len(ms))):
            jobs.append((f, s, l, w, cs.split()))
    rng.shuffle(jobs)
    with ThreadPoolExecutor(int(os.environ.get('PAR', '4'))) as ex, open(out, 'a') as fo:
        for r in (t.result() for t in as_completed([ex.submit(trial, j) for j in jobs])):
            fo.write(json.dumps(r) + '\n')
            fo.flush()
            print(r['caught'], r['file'], r['line'], r['what'][:100].replace('\n', ' '), '' if r['caught'] else r.get('rcs') or r.get('error'), flush=True)
