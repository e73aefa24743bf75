"""Linear entailment over the facts that hold at a program point (exact rational simplex over a
polyhedral domain; no external solver)."""
from fractions import Fraction
from .terms import *
from . import terms as T


def feasible(cons, bounds):
    """cons: list of ({var: coef}, const) meaning sum + const <= 0 ; bounds: var -> (lo, hi).
    General simplex with Bland's rule.  True if rationally feasible."""
    # variables
    vs = {}
    for c, k in cons:
        for v in c:
            vs.setdefault(v, len(vs))
    n = len(vs)
    lo = [None] * n
    hi = [None] * n
    for v, i in vs.items():
        b = bounds.get(v)
        if b:
            lo[i], hi[i] = b
    rows = {}       # basic var -> {nonbasic: coef}
    seen = {}
    for c, k in cons:
        if not c:
            if k > 0:
                return False
            continue
        if len(c) == 1:
            (v, co), = c.items()
            i = vs[v]
            b = -Fraction(k) / co
            if co > 0:
                if hi[i] is None or b < hi[i]:
                    hi[i] = b
            else:
                if lo[i] is None or b > lo[i]:
                    lo[i] = b
            continue
        # normalise: same combination shares a slack
        items = sorted((vs[v], co) for v, co in c.items())
        s = items[0][1]
        key = tuple((i, Fraction(co) / s) for i, co in items)
        b = -Fraction(k) / s
        j = seen.get(key)
        if j is None:
            j = len(lo)
            lo.append(None)
            hi.append(None)
            seen[key] = j
            rows[j] = dict(key)
        if s > 0:
            if hi[j] is None or b < hi[j]:
                hi[j] = b
        else:
            if lo[j] is None or b > lo[j]:
                lo[j] = b
    for i in range(len(lo)):
        if lo[i] is not None and hi[i] is not None and lo[i] > hi[i]:
            return False
    val = [Fraction(0)] * len(lo)
    for i in range(n):
        if lo[i] is not None:
            val[i] = Fraction(lo[i])
        elif hi[i] is not None:
            val[i] = Fraction(hi[i])
    for j in rows:
        val[j] = sum((co * val[i] for i, co in rows[j].items()), Fraction(0))
    it = 0
    while True:
        it += 1
        if it > 400:
            return True      # give up: cannot show infeasible
        bad = None
        for j in sorted(rows):
            if lo[j] is not None and val[j] < lo[j]:
                bad = (j, lo[j], 1)
                break
            if hi[j] is not None and val[j] > hi[j]:
                bad = (j, hi[j], -1)
                break
        if bad is None:
            return True
        j, target, d = bad
        row = rows[j]
        piv = None
        for i in sorted(row):
            co = row[i]
            up = (co > 0) == (d > 0)
            if up and (hi[i] is None or val[i] < hi[i]) or (not up) and (lo[i] is None or val[i] > lo[i]):
                piv = i
                break
        if piv is None:
            return False
        co = row[piv]
        theta = (target - val[j]) / co
        val[j] = target
        val[piv] += theta
        for k2, r in rows.items():
            if k2 != j and piv in r:
                val[k2] += r[piv] * theta
        # pivot
        del rows[j]
        nr = {j: Fraction(1) / co}
        for i, c2 in row.items():
            if i != piv:
                nr[i] = -c2 / co
        for k2 in list(rows):
            r = rows[k2]
            c2 = r.pop(piv, None)
            if c2:
                for i, c3 in nr.items():
                    x = r.get(i, 0) + c2 * c3
                    if x == 0:
                        r.pop(i, None)
                    else:
                        r[i] = x
        rows[piv] = nr


class Ctx:
    """facts valid at a point: path condition + assumptions (guard => cond), all BDDs"""
    __slots__ = ('pc', 'assume', '_facts', '_cache', '_dcache')

    def __init__(self, pc=TRUE, assume=()):
        self.pc = pc
        self.assume = assume     # tuple of (guard, cond)
        self._facts = None
        self._cache = {}
        self._dcache = {}

    def lits(self):
        if self._facts is None:
            out = {}
            work = [self.pc]
            for v, s in implied_lits(self.pc):
                out[v] = s
            pend = list(self.assume)
            changed = True
            while changed and pend:
                changed = False
                rest = []
                for g, c in pend:
                    gg, cc = g, c
                    if gg is not TRUE and not bimplies(self.pc, gg):
                        for v in gg.support():
                            if v in out:
                                gg = cofactor(gg, v, out[v])
                    if gg is TRUE or bimplies(self.pc, gg):
                        for v in cc.support():
                            if v in out:
                                cc = cofactor(cc, v, out[v])
                        n0 = len(out)
                        for v, s in implied_lits(cc):
                            out.setdefault(v, s)
                        if len(out) > n0:
                            changed = True
                        if cc.v is not None and len(cc.support()) > 1:
                            rest.append((TRUE, c))
                    elif gg is not FALSE:
                        rest.append((g, c))
                pend = rest
            les, eqs, nes = [], [], []
            for v, s in out.items():
                k = T._lits[v]
                if k[0] == 'le':
                    les.append(k[1] if s else (1 - k[1]))
                elif k[0] == 'eq' and T._is_int_poly(k[1]):
                    (eqs if s else nes).append(k[1])
            self._facts = (out, les, eqs, nes)
        return self._facts

    def cond(self, g):
        """context strengthened by g"""
        if g is TRUE:
            return self
        r = self._dcache.get(g)
        if r is None:
            r = Ctx(band(self.pc, g), self.assume)
            self._dcache[g] = r
        return r

    def entails_le(self, p):
        """p <= 0 for all integer points?"""
        return self._infeasible([1 - p])

    def _infeasible(self, extra, depth=0, eqx=()):
        key = (tuple(extra), eqx)
        r = self._cache.get(key)
        if r is None:
            self._cache[key] = False
            r = self._infeasible0(extra, depth, eqx)
            self._cache[key] = r
        return r

    def _infeasible0(self, extra, depth, eqx):
        for p in extra:
            lo, hi = interval(p)
            if lo is not None and lo > 0:
                return True
        out, les, eqs, nes = self.lits()
        goalm = set()
        for p in list(extra) + list(eqx):
            for m, c in p.t:
                if m:
                    goalm.add(m)
        cons, bounds, monos = self._system(extra, eqx, les, eqs, goalm)
        if not feasible(cons, bounds):
            return True
        # integrality of disequalities p != 0 : split
        if depth < 3:
            for p in nes:
                if all(m in monos for m, c in p.t if m):
                    if self._entail_raw(cons, bounds, p):       # p <= 0 known => p <= -1
                        e2 = tuple(extra) + (p + 1,)
                        if e2 != tuple(extra) and (p + 1) not in extra:
                            return self._infeasible(list(e2), depth + 1, eqx)
                    elif self._entail_raw(cons, bounds, -p):
                        e2 = tuple(extra) + (1 - p,)
                        if (1 - p) not in extra:
                            return self._infeasible(list(e2), depth + 1, eqx)
        # case split on ite atoms
        if depth < 4:
            for m in sorted(monos):
                for aid, e in m:
                    a = getatom(aid)
                    if a.kind == 'ite' and not any(Poly.atom(a) - q in eqx or True and (Poly.atom(a) - q) in eqx for q in (a.args[1], a.args[2])):
                        g, x, y = a.args
                        c1 = self.cond(g)
                        ok1 = c1.pc is FALSE or c1._infeasible(extra, depth + 1, eqx + (Poly.atom(a) - x,))
                        if not ok1:
                            return False
                        c2 = self.cond(bnot(g))
                        return c2.pc is FALSE or c2._infeasible(extra, depth + 1, eqx + (Poly.atom(a) - y,))
        return False

    def _entail_raw(self, cons, bounds, p):
        return not feasible(cons + [row(1 - p)], bounds)

    def _system(self, extra, eqx, les, eqs, goalm):
        monos = set(goalm)
        pool = [(p, False) for p in les] + [(p, True) for p in eqs]
        used = []
        usedset = set()
        cons = []
        for p in extra:
            cons.append(row(p))
        for p in eqx:
            cons.append(row(p))
            cons.append(row(-p))
        done_m = set()
        for _round in range(6):
            grew = False
            for p, iseq in pool:
                if (p, iseq) in usedset:
                    continue
                ms = [m for m, c in p.t if m]
                if any(m in monos for m in ms):
                    usedset.add((p, iseq))
                    used.append((p, iseq))
                    cons.append(row(p))
                    if iseq:
                        cons.append(row(-p))
                    for m in ms:
                        if m not in monos:
                            monos.add(m)
                            grew = True
            for m in list(monos):
                if m in done_m:
                    continue
                done_m.add(m)
                for q in self._intrinsic(m):
                    cons.append(row(q))
                    for mm, c in q.t:
                        if mm and mm not in monos:
                            monos.add(mm)
                            grew = True
            if len(monos) > 80:
                break
            if not grew:
                break
        # products: fact * nonneg atom
        n = 0
        for m in list(monos):
            if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1 or len(m) == 1 and m[0][1] == 2:
                parts = [(m[0], m[1]), (m[1], m[0])] if len(m) == 2 else [((m[0][0], 1), (m[0][0], 1))]
                for a, b in parts:
                    bp = Poly(((((b[0], 1),), 1),))
                    bl, bh = interval(bp)
                    if bl is None or bl < 0:
                        continue
                    ma = ((a[0], 1),)
                    cand = []
                    for p, iseq in pool + [(p, False) for p in extra] + [(p, True) for p in eqx]:
                        if any(mm == ma for mm, c in p.t) and len(p.t) <= 4:
                            cand.append((p, iseq))
                    # facts about a alone
                    al, ah = interval(Poly(((ma, 1),)))
                    if al is not None and al > 0:
                        cand.append((al - Poly(((ma, 1),)), False))
                    for p, iseq in cand[:6]:
                        q = p * bp
                        if n > 40:
                            break
                        n += 1
                        cons.append(row(q))
                        if iseq:
                            cons.append(row(-q))
                        for mm, c in q.t:
                            if mm:
                                monos.add(mm)
        bounds = {}
        for m in monos:
            lo, hi = T.mono_range(m)
            if lo is not None or hi is not None:
                bounds[m] = (lo, hi)
        return cons, bounds, monos

    def _intrinsic(self, m):
        out = []
        for aid, e in m:
            a = getatom(aid)
            if a.kind == 'op' and a.args[0] == 'div' and e == 1:
                p, q = a.args[1], a.args[2]
                pl, _ = interval(p)
                ql, _ = interval(q)
                if pl is not None and pl >= 0 and ql is not None and ql >= 0:
                    d = Poly.atom(a)
                    t = q * d
                    out.append(t - p)
                    if ql >= 1 or self._pos(q):
                        out.append(p - t - q + 1)
                        out.append(d - p)
        return out

    def _pos(self, q):
        _, les, eqs, nes = self.lits()
        if (1 - q) in les:
            return True
        for p in les:
            # p <= 0 with p = c - q, c>=1
            d = p + q
            c = d.cval()
            if c is not None and c >= 1:
                return True
        for p in nes:
            if p == q or p == -q:
                return True
        for p in eqs:
            for s in (p, -p):
                d = s + q
                c = d.cval()
                if c is not None and c >= 1:
                    return True
        return False

    # -------------------------------------------------- BDD level
    def decide_lit(self, v):
        """True/False/None"""
        k = T._lits[v]
        out = self.lits()[0]
        if v in out:
            return out[v]
        if k[0] == 'le':
            p = k[1]
            if self.entails_le(p):
                return True
            if self.entails_le(1 - p):
                return False
        elif k[0] == 'eq':
            p = k[1]
            if not T._is_int_poly(p):
                return None
            if self._infeasible([1 - p]) and self._infeasible([1 + p]):
                return True
            if self._infeasible([p, -p]):
                return False
            # parity style: not handled
        return None

    def simplify(self, b):
        """equivalent to b under the context, with decidable literals resolved"""
        if b.v is None:
            return b
        if self.pc is not TRUE:
            if bimplies(self.pc, b):
                return TRUE
            if band(self.pc, b) is FALSE:
                return FALSE
        return self._simp(b)

    def _simp(self, b):
        if b.v is None:
            return b
        d = self.decide_lit(b.v)
        if d is True:
            return self._simp(b.hi)
        if d is False:
            return self._simp(b.lo)
        L = mk(b.v, FALSE, TRUE)
        c1, c0 = self.cond(L), self.cond(bnot(L))
        if c1.pc is FALSE:
            return self._simp(b.lo)
        if c0.pc is FALSE:
            return self._simp(b.hi)
        hi = c1.simplify(b.hi)
        lo = c0.simplify(b.lo)
        r = bite(L, hi, lo)
        if self.pc is not TRUE:
            if bimplies(self.pc, r):
                return TRUE
            if band(self.pc, r) is FALSE:
                return FALSE
        return r

    def holds(self, b):
        return self.simplify(b) is TRUE

    def refuted(self, b):
        return self.simplify(b) is FALSE

    def simp_poly(self, p, depth=0):
        """resolve ite atoms decidable here"""
        if depth > 12:
            return p
        for aid in p.atoms():
            a = getatom(aid)
            if a.kind == 'ite':
                g = self.simplify(a.args[0])
                if g is not a.args[0] or g.v is None:
                    new = ite(g, a.args[1], a.args[2])
                    if new != Poly.atom(a):
                        return self.simp_poly(T.poly_replace(p, aid, new), depth + 1)
        return p

    def equal(self, p, q):
        if p == q:
            return True
        d = self.simp_poly(p - q)
        if d.cval() is not None:
            return d.cval() == 0
        if not T._is_int_poly(d):
            return False
        return self._infeasible([1 - d]) and self._infeasible([1 + d])


def row(p):
    d = {}
    k = 0
    for m, c in p.t:
        if m:
            d[m] = Fraction(c)
        else:
            k = Fraction(c)
    return d, k
