import sys
import threading
from terms import *
from program import *
from core import *
from evalx import EvalMixin
from calls import CallMixin
from builtinx import BuiltinMixin
from methods import MethodMixin
from loops import LoopMixin

sys.setrecursionlimit(20000)


class Analyzer(EvalMixin, CallMixin, BuiltinMixin, MethodMixin, LoopMixin, Core):
    _fz_min = -1


def with_big_stack(fn, *a):
    out = {}

    def run():
        try:
            out['r'] = fn(*a)
        except BaseException as e:
            out['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if 'e' in out:
        raise out['e']
    return out['r']
