"""Setup: nothing is built; checks that the interpreter, TensorFlow, HGQ from /repo and z3 can be loaded."""
import os
import sys
os.environ.update(TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='-1')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hgqsym import worker
worker.boot()
from hgqsym import core
s = core.z3.Solver()
x = core.z3.Int('x')
s.add(x * 2 == 5)
assert str(s.check()) == 'unsat'
print('ok')
