"""Reference formulas and comparison helpers."""
import math, random
from fpmodel import *
from eng.lp import Ctx
import ref


# ---------------------------------------------------------------- comparison up to rounding of literal constants
def rel(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-300


_approx = {}


def approx(a, b):
    """structural equality of two real terms up to 1e-9 relative differences of their coefficients"""
    if a == b:
        return True
    k = (a, b)
    r = _approx.get(k)
    if r is None:
        _approx[k] = False
        r = _approx[k] = _approx_poly(a, b)
    return r


def _approx_poly(a, b):
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(approx(x, y) if isinstance(x, (Poly, tuple)) else x == y for x, y in zip(a, b))
        return a == b
    if len(a.t) != len(b.t):
        return False
    db = dict(b.t)
    left = []
    for m, c in a.t:
        if m in db and rel(c, db[m]):
            del db[m]
        else:
            left.append((m, c))
    for m, c in left:
        for m2, c2 in db.items():
            if len(m) == len(m2) and rel(c, c2) and mono_close(m, m2):
                del db[m2]
                break
        else:
            return False
    return True


def mono_close(m, n):
    n = list(n)
    for a, e in m:
        for j, (b, f) in enumerate(n):
            if e == f and (a == b or atom_close(T.getatom(a), T.getatom(b))):
                del n[j]
                break
        else:
            return False
    return True


def atom_close(a, b):
    if a.kind != b.kind or a.kind not in ('op', 'fdiv', 'inv', 'ite', 'sum') or len(a.args) != len(b.args):
        return False
    return all(approx(x, y) if isinstance(x, (Poly, tuple)) else x == y for x, y in zip(a.args, b.args))


# ---------------------------------------------------------------- case splitting
def guards(p, out=None, seen=None):
    """decision variables of the conditional atoms of a term (outermost first)"""
    seen = set() if seen is None else seen
    if isinstance(p, Poly):
        for m, c in p.t:
            for a, e in m:
                at = T.getatom(a)
                if at.id in seen:
                    continue
                seen.add(at.id)
                if at.kind == 'ite':
                    return at.args[0]
        for m, c in p.t:
            for a, e in m:
                for x in T.getatom(a).args:
                    g = guards(x, None, seen) if isinstance(x, (Poly, tuple)) else None
                    if g is not None:
                        return g
    elif isinstance(p, tuple):
        for x in p:
            g = guards(x, None, seen)
            if g is not None:
                return g
    return None


def solve_eq(k):
    """(atom id, poly) for a literal sym - expr == 0 usable as a substitution"""
    if k[0] not in ('eq', 'feq'):
        return None
    p = k[1]
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            a = T.getatom(m[0][0])
            if a.kind == 'sym':
                rest = p - Poly(((m, c),))
                if a.id not in rest.deps():
                    return a.id, rest.scale(-c)
    return None


def ctx_width(ctx, x, end, step, most=8):
    """smallest w <= most with |x - end| <= w implied by the context"""
    d = (x - C(int(end))).scale(step)
    if not ctx.entails_le(d - C(most)):
        return None
    for w in range(most + 1):
        if ctx.entails_le(d - C(w)):
            return w
    return None


def pinned(ctx, *ps):
    """integer symbols of the terms that the context confines to one value"""
    out = {}
    if ctx.pc is TRUE:
        return out
    for a in set().union(*(p.deps() for p in ps if isinstance(p, Poly))):
        at = T.getatom(a)
        if at.kind != 'sym' or not at.ty or at.ty[0] != 'i':
            continue
        x = Poly.atom(at)
        lo, hi = T.interval(x)
        # a handful of candidates next to either end, all but one excluded
        for end, step in ((lo, 1), (hi, -1)):
            if end is None:
                continue
            w = ctx_width(ctx, x, end, step)
            if w is None:
                continue
            cand = [c for c in range(int(end), int(end) + step * (w + 1), step) if ctx.simplify(eq(x, C(c))) is not FALSE]
            if len(cand) == 1:
                out[a] = C(cand[0])
                break
    return out


class Budget:
    def __init__(self, n):
        self.n = n


def prove_eq(a, b, pc=TRUE, assume=(), budget=None, cmp=approx):
    """equality of two real terms under pc, splitting on the conditions inside them"""
    budget = budget or Budget(400)
    budget.n -= 1
    if budget.n < 0:
        return None
    if cmp(a, b):
        return True
    ctx = Ctx(pc, assume)
    if isinstance(a, Poly) and isinstance(b, Poly):
        try:
            if ctx.equal(a, b):
                return True
        except Exception:
            pass
    pins = pinned(ctx, a, b)
    if pins:
        return prove_eq(T.subst(a, pins), T.subst(b, pins), T.subst(pc, pins), assume, budget, cmp)
    g = guards(a)
    if g is None:
        g = guards(b)
    if g is None:
        return None
    g = ctx.simplify(g)
    if g is TRUE or g is FALSE:
        a2, b2 = restrict_all(a, pc, g, ctx), restrict_all(b, pc, g, ctx)
        if (a2, b2) == (a, b):
            return None
        return prove_eq(a2, b2, pc, assume, budget, cmp)
    v = T.mk(g.v, FALSE, TRUE)
    d = ctx.decide_lit(g.v)
    for lit_ in ((v, bnot(v)) if d is None else (v,) if d else (bnot(v),)):
        p2 = band(pc, lit_)
        if p2 is FALSE:
            continue
        k = T.lit_key(g.v)
        if lit_ is not v and k[0] == 'eq' and T._is_int_poly(k[1]):
            # an excluded end point tightens the bound
            if ctx.entails_le(k[1]):
                p2 = band(p2, le(k[1], C(-1)))
                if ctx._infeasible([k[1] + 1]):
                    continue
            elif ctx.entails_le(-k[1]):
                p2 = band(p2, le(-k[1], C(-1)))
                if ctx._infeasible([1 - k[1]]):
                    continue
        if p2 is FALSE:
            continue
        a2, b2 = T.restrict_poly(a, lit_), T.restrict_poly(b, lit_)
        pp = p2
        if lit_ is v:
            s = solve_eq(T.lit_key(g.v))
            if s is not None:
                a2, b2 = T.subst(a2, {s[0]: s[1]}), T.subst(b2, {s[0]: s[1]})
                pp = T.subst(p2, {s[0]: s[1]})
        r = prove_eq(a2, b2, pp, assume, budget, cmp)
        if r is not True:
            return r
    return True


def restrict_all(p, pc, g, ctx):
    q = T.restrict_poly(p, pc)
    if q != p:
        return q
    # the guard itself is decided by the context but not syntactically by pc
    return collapse(p, ctx)


def collapse(p, ctx):
    m = {}
    for at in all_ites(p):
        g = ctx.simplify(at.args[0])
        if g is TRUE:
            m[at.id] = at.args[1]
        elif g is FALSE:
            m[at.id] = at.args[2]
    return T.subst(p, m) if m else p


def all_ites(p, seen=None):
    seen = {} if seen is None else seen
    if isinstance(p, Poly):
        for m, c in p.t:
            for a, e in m:
                at = T.getatom(a)
                if at.id in seen:
                    continue
                seen[at.id] = at
                for x in at.args:
                    all_ites(x, seen)
    elif isinstance(p, tuple):
        for x in p:
            all_ites(x, seen)
    return [a for a in seen.values() if a.kind == 'ite']


# ---------------------------------------------------------------- framing
def window(i, frame):
    """Hamming window 0.54 - 0.46 cos(2 pi i / (N-1))"""
    return T.fconst(0.54) - T.fconst(0.46) * T.op('cos', (i * T.fconst(2 * math.pi / (frame - 1)),), T.F64, -1, 1)


def window_n(i, frame):
    return 0.54 - 0.46 * math.cos(2 * math.pi * i / (frame - 1))


def frame_count(total, frame, overlap):
    return 0 if total < frame else (total - frame) // (frame - overlap) + 1


def rnd_arr(seed, lo=-32768, hi=32767, extreme=True):
    def f(i, proj):
        r = random.Random('%s:%s:%s' % (seed, i, proj))
        if extreme and r.random() < 0.3:
            return r.choice((lo, hi, 0, lo + 1, hi - 1, 1, -1))
        return r.randint(lo, hi)
    return f


def envs_for(names, extra=None, n=4):
    """evaluators with random sample arrays"""
    out = []
    for k in range(n):
        def mk(k=k):
            e = Ev(dict(extra[k % len(extra)]) if extra else {}, seed=k)
            for nm in names:
                e.arr[nm] = rnd_arr((nm, k))
            return e
        out.append(mk)
    return out


def check_frame(ck, key, M, l, k, mono, frame, hop, st, envs, what=''):
    """the k-th transform's input is the windowed, scaled slice of the mono stream starting at k*hop"""
    v = l['in']
    if v.len != C(frame):
        verdict(ck, key + '/length', same(v.len, C(frame), st.ctx(), envs), 'frame length is %d' % frame)
        return
    pcx = l['pc']
    i = sym('fi', USIZE, 0, frame - 1)
    pts = [i] if frame > 24 else [C(x) for x in range(frame)]
    for x in pts:
        el = M.I.select(v.arr, x, Ctx(pcx, l['assume']))
        if not isinstance(el, Agg) or len(el.f) != 2:
            ck.unk(key + '/element', 'shape %s' % type(el).__name__)
            return
        m = mono(C(k * hop) + x)
        if frame > 24:
            spec = window(x, frame) * m * T.fconst(1 / 32767.0)
        else:
            spec = m * T.fconst(window_n(int(x.cval()), frame) / 32767.0)
        r = prove_eq(el.f[0], spec, pcx, l['assume'])
        if r is not True:
            xs = range(0, frame, max(1, frame // 40)) if frame > 24 else (0,)
            ee = []
            for mk in envs:
                for xv in xs:
                    def m2(mk=mk, xv=xv):
                        e = mk()
                        e.env.setdefault('fi', xv)
                        return e
                    ee.append(m2)
            r = witness(el.f[0], spec, ee, pcx, l['assume'])
        verdict(ck, key + '/re', r, what or 'FFT input = window * sample / 32767')
        im = el.f[1]
        r = True if prove_eq(im, ZERO, pcx, l['assume']) else witness(im, ZERO, envs, pcx, l['assume'])
        if r is not True:
            verdict(ck, key + '/im', r, 'imaginary part of the FFT input is 0')
        if r is not None and r is not True:
            return


def vb_known(mk, b):
    try:
        mk().val(b)
        return True
    except (Unknown, OverflowError):
        return False


def witness(a, b, envs, pc=TRUE, assume=(), tol=1e-7):
    for mk in envs:
        ev = mk()
        try:
            if not ev.bdd(pc) or any(ev.bdd(g) and not ev.bdd(x) for g, x in assume):
                continue
            vb = ev.val(b)
            va = ev.val(a)
        except Domain as e:
            if vb_known(mk, b):
                return ('neq', {k: v for k, v in list(ev.env.items())[:12]}, str(e), vb)
            continue
        except (Unknown, OverflowError):
            continue
        if not close(va, vb, tol):
            return ('neq', {k: v for k, v in list(ev.env.items())[:12]}, va, vb)
    return None


def panic_events(ck, key, M, since=0, envs=(), skip=()):
    """every recorded panic edge must be impossible: witness-confirmed ones are violations, others undetermined"""
    seen = set()
    n = 0
    for e in M.panics(since):
        w = (e.get('what'), e.get('fn'))
        if w in seen:
            continue
        c = band(e['pc'], e['cond'])
        r = None
        if c is TRUE:
            r = ('neq', 'always', None, None)
        else:
            for mk in envs:
                ev = mk()
                try:
                    if ev is not None and ev.bdd(c):
                        r = ('neq', dict(list(ev.env.items())[:12]), None, None)
                        break
                except (Unknown, OverflowError):
                    continue
        if r is not None:
            seen.add(w)
            verdict(ck, key + '/panic:%s@%s' % w, r, 'no panic: ' + M.where(e))
        else:
            n += 1
    return n
