"""Entry points of the analysed crate and convenience runners."""
import sys
from .terms import *
from . import terms as T
from .values import *
from .interp import *
from .lp import Ctx

sys.setrecursionlimit(20000)
P = 'rusty_chromaprint::'
FP = P + 'fingerprinter::Fingerprinter::'
CFGP = P + 'fingerprinter::Configuration::'


def run(I, idx, args, st=None, ctx='root'):
    st = st or State()
    return I.call(idx, args, st, ctx_intern(ctx))


def one(prog, path):
    r = prog.find(path)
    if len(r) != 1:
        raise KeyError('%d instances for %s' % (len(r), path))
    return r[0]


def subvalues(I, v, path=(), d=0, st=None):
    """yield (path, value) for every aggregate / box reachable structurally inside v"""
    yield path, v
    if d > 24:
        return
    if isinstance(v, BoxV):
        yield from subvalues(I, v.inner, path + ('b',), d + 1)
    elif isinstance(v, Agg):
        for i, x in enumerate(v.f):
            yield from subvalues(I, x, path + (i,), d + 1)


def find_agg(I, root, pred):
    """paths of the aggregates below root whose adt path satisfies pred"""
    out = []
    for pth, v in subvalues(I, root):
        if isinstance(v, Agg) and v.ty is not None and I.ty[v.ty]['k'] == 'adt' and pred(I.ty[v.ty]['name']):
            out.append((pth, v))
    return out
