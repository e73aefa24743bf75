"""Evaluation of extracted closed forms (terms) at assignments of their symbols.  Used only to confirm a
counterexample of a failed proof obligation: the program is never executed."""
import math, random
from fractions import Fraction
from eng.terms import *
from eng import terms as T
from eng.values import *
from eng import natives as N


class Domain(Unknown):
    """the value is NaN"""


class Ev(T.Eval):
    def __init__(self, env=None, arr=None, uf=None, seed=1, auto=None):
        T.Eval.__init__(self, dict(env or {}), arr)
        self.uf = uf
        self.rng = random.Random(seed)
        self.seed = seed
        self.auto = auto
        self.memo = {}
        self.stack = 0

    def reset(self):
        self.memo.clear()

    def poly(self, p):
        tot = 0
        for m, c in p.t:
            v = c if isinstance(c, int) or c.denominator < (1 << 20) else float(c)
            for a, e in m:
                x = self.atom(T._atom_list[a])
                if e < 0:
                    if x == 0:
                        raise Unknown('division by zero')
                    v = v * float(x) ** e
                else:
                    if isinstance(x, bool):
                        x = int(x)
                    if isinstance(v, Fraction) and isinstance(x, float):
                        v = float(v)
                    v = v * x ** e
            tot = tot + (float(v) if isinstance(v, Fraction) and isinstance(tot, float) else v)
        if isinstance(tot, Fraction) and tot.denominator == 1:
            return int(tot)
        return tot

    def atom(self, a):
        if a.kind == 'sym':
            n = a.args[0]
            if n in self.env:
                return self.env[n]
            if self.auto is not None:
                v = self.auto(n, a)
                if v is not None:
                    self.env[n] = v
                    return v
            if n.startswith('wrap') and a.lo is not None:      # wrap point of a ring buffer: any
                r = random.Random('%s %s' % (n, self.seed))
                v = r.choice((a.lo, a.hi, r.randint(a.lo, a.hi), (a.lo + a.hi) // 2, max(a.lo, a.hi - 1)))
                self.env[n] = v
                return v
            raise Unknown(n)
        bound = bool(self.stack)
        if not bound:
            r = self.memo.get(a.id)
            if r is not None:
                return r
        self.stack += a.kind == 'sum'
        try:
            r = T.Eval.atom(self, a)
        finally:
            self.stack -= a.kind == 'sum'
        if not bound:
            self.memo[a.id] = r
        return r

    def lit(self, k):
        if k[0] in ('le', 'fle', 'qle'):
            return self.poly(k[1]) <= 0
        if k[0] in ('eq', 'feq'):
            return self.poly(k[1]) == 0
        if k[0] == 'flt':
            return self.poly(k[1]) < 0
        if k[0] == 'b':
            n = T._atom_list[k[1]].args[0]
            if n in self.env:
                return self.env[n]
            if self.auto is not None:
                v = self.auto(n, None)
                if v is not None:
                    self.env[n] = bool(v)
                    return self.env[n]
            raise Unknown(n)
        if k[0] == 'bop' and k[1] in ('is_nan', 'is_infinite', 'is_finite'):
            x = self.poly(k[2][0])
            return k[1] == 'is_finite'
        if k[0] == 'bop' and k[1] == 'uf' and self.uf:
            return bool(self.uf(self, k[2], True))
        raise Unknown(str(k)[:80])

    def elem(self, arr, idx, proj):
        v = self.at(arr, idx)
        if isinstance(v, tuple) and v and v[0] == 'symel':
            f = self.arr.get(v[1])
            if f is None:
                raise Unknown(v[1])
            return f(v[2], proj)
        for q in proj:
            v = v.f[int(q)]
        return self.poly(v)

    def at(self, arr, i):
        """array term at a concrete index -> value (term) or ('symel', name, i)"""
        while True:
            if isinstance(arr, ArrSym):
                return ('symel', arr.name, i)
            if isinstance(arr, ArrOp):
                if self.uf:
                    return ('symel', ('uf', arr.name), i)
                raise Unknown(str(arr)[:60])
            if isinstance(arr, ArrFill):
                return arr.v
            if isinstance(arr, ArrList):
                if 0 <= i < len(arr.vals):
                    return arr.vals[int(i)]
                raise Unknown('list index')
            if isinstance(arr, ArrStore):
                if self.poly(arr.idx) == i:
                    return arr.val
                arr = arr.base
            elif isinstance(arr, ArrComp):
                lo, n = self.poly(arr.lo), self.poly(arr.n)
                if lo <= i < lo + n:
                    return T.subst(arr.val, {arr.var.as_atom().id: C(int(i - lo))})
                arr = arr.base
            elif isinstance(arr, ArrCopy):
                lo, n = self.poly(arr.dlo), self.poly(arr.n)
                if lo <= i < lo + n:
                    i = i - lo + self.poly(arr.slo)
                    arr = arr.src
                else:
                    arr = arr.base
            elif isinstance(arr, ArrShift):
                i = i + self.poly(arr.off)
                arr = arr.base
            elif isinstance(arr, ArrIte):
                arr = arr.a if self.bdd(arr.g) else arr.b
            else:
                raise Unknown(type(arr).__name__)

    def num_at(self, arr, i, proj=()):
        v = self.at(arr, i)
        if isinstance(v, tuple) and v and v[0] == 'symel':
            f = self.arr.get(v[1])
            if f is None:
                raise Unknown(str(v[1]))
            return f(v[2], proj)
        return self.val(v)

    def val(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, Bdd):
            return self.bdd(v)
        if isinstance(v, Agg):
            return tuple(self.val(x) for x in v.f)
        if isinstance(v, Enum):
            for k, d, g, f in v.alts:
                if self.bdd(g):
                    return (k,) + tuple(self.val(x) for x in f)
            raise Unknown('no alternative')
        if isinstance(v, Gated):
            for g, x in v.alts:
                if self.bdd(g):
                    return self.val(x)
            raise Unknown('no alternative')
        if isinstance(v, SeqV):
            n = int(self.poly(v.len))
            return [self.num_at(v.arr, i) for i in range(n)]
        if isinstance(v, BoxV):
            return self.val(v.inner)
        raise Unknown(type(v).__name__)


def _f1(name, f):
    def g(ev, x, *r):
        try:
            return f(ev.poly(x))
        except (ValueError, OverflowError):
            if name in ('ln', 'log2', 'log10', 'sqrt') and ev.poly(x) < -1e-6:
                raise Domain('%s of %.4g' % (name, ev.poly(x)))
            raise Unknown(name)
    T.EVAL_OP[name] = g


for _n, _f in (('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc), ('round', N.fround), ('sqrt', math.sqrt), ('ln', math.log), ('log2', math.log2),
               ('log10', math.log10), ('sin', math.sin), ('cos', math.cos), ('tan', math.tan), ('exp', math.exp), ('abs', abs),
               ('ln_1p', math.log1p), ('exp_m1', math.expm1), ('ctpop', lambda x: bin(int(x)).count('1'))):
    _f1(_n, _f)


def _ev(name):
    def d(f):
        T.EVAL_OP[name] = f
        return f
    return d


@_ev('div')
def _div(ev, p, q, *r):
    a, b = ev.poly(p), ev.poly(q)
    if b == 0:
        raise Unknown('div by zero')
    return T.trunc_div(int(a), int(b))


@_ev('fdiv0')
def _fdiv0(ev, *r):
    raise Unknown('x/0')


@_ev('fmul')
def _fmul(ev, a, b):
    return ev.poly(a) * ev.poly(b)


@_ev('powi')
def _powi(ev, a, b):
    return ev.poly(a) ** ev.poly(b)


@_ev('powf')
def _powf(ev, a, b):
    return float(ev.poly(a)) ** float(ev.poly(b))


@_ev('f2i')
def _f2i(ev, a, nt):
    lo, hi = int_range(nt)
    return max(lo, min(hi, math.trunc(ev.poly(a))))


@_ev('wrap')
def _wrap(ev, a, nt):
    c = int(ev.poly(a)) & ((1 << nt[2]) - 1)
    if nt[1] and c >= 1 << (nt[2] - 1):
        c -= 1 << nt[2]
    return c


def _bw(f):
    def g(ev, *args):
        r = None
        for a in args:
            x = int(ev.poly(a))
            r = x if r is None else f(r, x)
        return r
    return g


T.EVAL_OP['and'] = _bw(lambda a, b: a & b)
T.EVAL_OP['or'] = _bw(lambda a, b: a | b)
T.EVAL_OP['xor'] = _bw(lambda a, b: a ^ b)


@_ev('shl')
def _shl(ev, a, b, nt):
    return (int(ev.poly(a)) << (int(ev.poly(b)) % nt[2])) & ((1 << nt[2]) - 1)


@_ev('shr')
def _shr(ev, a, b, nt):
    return int(ev.poly(a)) >> (int(ev.poly(b)) % nt[2])


@_ev('rem_euclid')
def _reme(ev, a, b):
    return int(ev.poly(a)) % abs(int(ev.poly(b)))


@_ev('frem')
def _frem(ev, a, b):
    return math.fmod(ev.poly(a), ev.poly(b))


@_ev('uf')
def _uf(ev, *a):
    if ev.uf is None:
        raise Unknown('uf ' + str(a[0]))
    return ev.uf(ev, a, False)


def close(a, b, tol=1e-9):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same(a, b, ctx=None, envs=(), tol=1e-9):
    """True: proven equal; ('neq', env, va, vb): confirmed different; None: undetermined"""
    if a == b:
        return True
    if ctx is not None and isinstance(a, Poly) and isinstance(b, Poly):
        try:
            if ctx.equal(a, b):
                return True
        except Exception:
            pass
    for mk in envs:
        ev = mk()
        if ev is None:
            continue
        try:
            va, vb = ev.val(a), ev.val(b)
        except (Unknown, OverflowError, RecursionError):
            continue
        if not close(va, vb, tol):
            return ('neq', {k: v for k, v in list(ev.env.items())[:12]}, va, vb)
    return None


def holds(st, cond, mkenvs=()):
    """does cond (Bdd) hold in state st?  True / ('neq', env) / None.  A witness must satisfy the path condition
    and every recorded assumption."""
    ctx = st.ctx()
    c = ctx.simplify(cond)
    if c is TRUE:
        return True
    if c is FALSE:
        return ('neq', 'for every input in this class', None, None)
    for mk in mkenvs:
        ev = mk()
        if ev is None:
            continue
        try:
            if not ev.bdd(ctx.pc):
                continue
            if any(ev.bdd(g) and not ev.bdd(x) for g, x in ctx.assume):
                continue
            if not ev.bdd(c):
                return ('neq', dict(list(ev.env.items())[:12]), None, None)
        except (Unknown, OverflowError):
            continue
    return None


def verdict(ck, key, r, what=''):
    """record the outcome of same()/holds()"""
    if r is True:
        ck.ok(key, what)
    elif r is None:
        ck.unk(key, what)
    else:
        d = '%s; counterexample of the extracted closed form: %s' % (what, r[1])
        if r[2] is not None or r[3] is not None:
            d += ' code=%s spec=%s' % (str(r[2])[:160], str(r[3])[:160])
        ck.bad(key, d)
