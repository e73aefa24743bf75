"""Hash-consed terms: atoms, (rational) polynomials over atoms, boolean decision
diagrams over canonical literals.  No solver: normal forms only."""
from fractions import Fraction
from functools import lru_cache
import math, struct, sys
sys.setrecursionlimit(20000)


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'ty', 'lo', 'hi', 'deps', 'unk')
    def __repr__(self):
        return show_atom(self)


_atoms = {}
_atom_list = []
_ids = {}


def _atom(kind, args, ty, lo=None, hi=None):
    key = (kind, args, ty)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atom_list)
        a.kind = kind
        a.args = args
        a.ty = ty
        a.lo = lo
        a.hi = hi
        a.deps = None
        a.unk = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


def int_range(ty):
    # ty = ('i', signed, bits)
    if ty is None or ty[0] != 'i':
        return None, None
    if ty[1]:
        return -(1 << (ty[2] - 1)), (1 << (ty[2] - 1)) - 1
    return 0, (1 << ty[2]) - 1


F64 = ('f', 64)
F32 = ('f', 32)
USIZE = ('i', False, 64)
ZINT = ('z',)          # mathematical integer


def sym(name, ty, lo=None, hi=None):
    if lo is None and hi is None:
        lo, hi = int_range(ty)
    return Poly.atom(_atom('sym', (name, lo, hi), ty, lo, hi))


_fresh = [0]


def fresh(name, ty, lo=None, hi=None):
    _fresh[0] += 1
    return sym('%s#%d' % (name, _fresh[0]), ty, lo, hi)


# ---------------------------------------------------------------- polynomials
class Poly:
    """sum of coef * prod(atom^exp).  Immutable, compared by value."""
    __slots__ = ('t', '_h', '_deps')

    def __init__(self, t):
        self.t = t            # tuple of (mono, coef) sorted; mono = tuple of (atomid, exp)
        self._h = hash(t)
        self._deps = None

    @staticmethod
    def make(d):
        return Poly(tuple(sorted((m, norm(c)) for m, c in d.items() if c != 0)))

    @staticmethod
    def const(c):
        c = norm(c)
        return Poly(()) if c == 0 else Poly((((), c),))

    @staticmethod
    def atom(a):
        return Poly(((((a.id, 1),), 1),))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self._h == o._h and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def cval(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def const_term(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def as_atom(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 and self.t[0][0][0][1] == 1:
            return _atom_list[self.t[0][0][0][0]]
        return None

    def __add__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            d[m] = d.get(m, 0) + c
        return Poly.make(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly(tuple((m, norm(c * k)) for m, c in self.t))

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(o)
        c = o.cval()
        if c is not None:
            return self.scale(c)
        c = self.cval()
        if c is not None:
            return o.scale(c)
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return Poly.make(d)
    __rmul__ = __mul__

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s

    def deps(self):
        """transitive set of sym atom ids"""
        if self._deps is None:
            s = frozenset()
            for a in self.atoms():
                s = s | atom_deps(_atom_list[a])
            self._deps = s
        return self._deps

    def linear_in(self, aid):
        """(coef poly, rest) if self = coef*atom + rest with exponent 1 everywhere and atom not nested"""
        d1, d0 = {}, {}
        for m, c in self.t:
            e = dict(m).get(aid, 0)
            if e == 0:
                d0[m] = c
            elif e == 1:
                d1[tuple(x for x in m if x[0] != aid)] = c
            else:
                return None
        rest, co = Poly.make(d0), Poly.make(d1)
        if aid in rest.deps() or aid in co.deps():
            return None
        return co, rest

    def __repr__(self):
        return show(self)


@lru_cache(maxsize=200000)
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


ZERO = Poly.const(0)
ONE = Poly.const(1)


def C(c):
    return Poly.const(c)


def getatom(i):
    return _atom_list[i]


# ---------------------------------------------------------------- ops
def op(name, args, ty, lo=None, hi=None):
    if lo is None and hi is None and ty is not None:
        lo, hi = int_range(ty)
    return Poly.atom(_atom('op', (name,) + tuple(args), ty, lo, hi))


def deps_of(x):
    if isinstance(x, Poly):
        return x.deps()
    if isinstance(x, Bdd):
        return x.deps()
    if isinstance(x, (tuple, list)):
        s = frozenset()
        for y in x:
            s = s | deps_of(y)
        return s
    d = getattr(x, 'deps', None)
    if d is not None:
        return d()
    return frozenset()


def atom_deps(a):
    if a.deps is None:
        if a.kind == 'sym':
            a.deps = frozenset([a.id])
        elif a.kind == 'sum':
            v, n, body = a.args
            a.deps = deps_of(n) | (deps_of(body) - frozenset([v.as_atom().id]))
        else:
            a.deps = deps_of(a.args)
    return a.deps


# ---------------------------------------------------------------- BDD
class Bdd:
    __slots__ = ('id', 'v', 'lo', 'hi', '_deps', '_sup')

    def __init__(self, i, v, lo, hi):
        self.id = i
        self.v = v
        self.lo = lo
        self.hi = hi
        self._deps = None
        self._sup = None

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bnot(band(bnot(self), bnot(o)))

    def __invert__(self):
        return bnot(self)

    def support(self):
        if self._sup is None:
            if self.v is None:
                self._sup = frozenset()
            else:
                self._sup = self.lo.support() | self.hi.support() | frozenset([self.v])
        return self._sup

    def deps(self):
        if self._deps is None:
            s = frozenset()
            for v in self.support():
                s = s | deps_of(_lits[v])
            self._deps = s
        return self._deps

    def __repr__(self):
        return show_bdd(self)


FALSE = Bdd(0, None, None, None)
TRUE = Bdd(1, None, None, None)
_bdds = {}
_bdd_n = [2]
_lits = []
_lit_ix = {}


def mk(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    b = _bdds.get(k)
    if b is None:
        b = Bdd(_bdd_n[0], v, lo, hi)
        _bdd_n[0] += 1
        _bdds[k] = b
    return b


_not = {}


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    r = _not.get(a)
    if r is None:
        r = mk(a.v, bnot(a.lo), bnot(a.hi))
        _not[a] = r
        _not[r] = a
    return r


_and = {}


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a.id > b.id:
        a, b = b, a
    k = (a, b)
    r = _and.get(k)
    if r is None:
        if a.v == b.v:
            r = mk(a.v, band(a.lo, b.lo), band(a.hi, b.hi))
        elif a.v < b.v:
            r = mk(a.v, band(a.lo, b), band(a.hi, b))
        else:
            r = mk(b.v, band(a, b.lo), band(a, b.hi))
        _and[k] = r
    return r


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def bimplies(a, b):
    return band(a, bnot(b)) is FALSE


_cof = {}


def cofactor(f, v, val):
    if f.v is None or f.v > v:
        return f
    k = (f, v, val)
    r = _cof.get(k)
    if r is None:
        if f.v == v:
            r = f.hi if val else f.lo
        else:
            r = mk(f.v, cofactor(f.lo, v, val), cofactor(f.hi, v, val))
        _cof[k] = r
    return r


_con = {}


def constrain(f, c):
    """generalised cofactor (Coudert-Madre restrict): equals f wherever c holds, as simple as possible"""
    if c is TRUE or f.v is None:
        return f
    if c is FALSE:
        return FALSE
    if f is c:
        return TRUE
    if bimplies(c, f):
        return TRUE
    if band(c, f) is FALSE:
        return FALSE
    k = (f, c)
    r = _con.get(k)
    if r is not None:
        return r
    if c.v < f.v:
        r = constrain(f, bor(c.lo, c.hi))
    elif c.v == f.v:
        if c.lo is FALSE:
            r = constrain(f.hi, c.hi)
        elif c.hi is FALSE:
            r = constrain(f.lo, c.lo)
        else:
            r = mk(f.v, constrain(f.lo, c.lo), constrain(f.hi, c.hi))
    else:
        r = mk(f.v, constrain(f.lo, c), constrain(f.hi, c))
    _con[k] = r
    return r


def implied_lits(f):
    """[(var, bool)] of literals implied by f"""
    out = []
    if f is FALSE:
        return out
    for v in f.support():
        if cofactor(f, v, 0) is FALSE:
            out.append((v, True))
        elif cofactor(f, v, 1) is FALSE:
            out.append((v, False))
    return out


def lit(key):
    i = _lit_ix.get(key)
    if i is None:
        i = len(_lits)
        _lits.append(key)
        _lit_ix[key] = i
    return mk(i, FALSE, TRUE)


def lit_key(v):
    return _lits[v]


def bsym(name):
    return lit(('b', sym(name, ('bool',)).as_atom().id, ()))


def bop(name, args):
    return lit(('bop', name, tuple(args)))


# ---------------------------------------------------------------- ite
def ite(g, a, b, ty=None):
    if g is TRUE or a == b:
        return a
    if g is FALSE:
        return b
    a = restrict_poly(a, g)
    b = restrict_poly(b, bnot(g))
    if a == b:
        return a
    # factor the common part
    da, db = dict(a.t), dict(b.t)
    com = {}
    for m, c in da.items():
        if db.get(m) == c:
            com[m] = c
    cp = Poly.make(com)
    a2, b2 = a - cp, b - cp
    # canonical polarity: 0/1 selectors become ite(g,1,0)-combinations
    ca, cb = a2.cval(), b2.cval()
    if ca is not None and cb is not None:
        if cb != 0:
            cp = cp + cb
            k = ca - cb
        else:
            k = ca
        return cp + _ite_atom(g, ONE, ZERO).scale(k)
    return cp + _ite_atom(g, a2, b2)


def _rng(p):
    return interval(p)


def _ite_atom(g, a, b):
    # polarity: prefer positive top literal
    la, ha = interval(a)
    lb, hb = interval(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return Poly.atom(_atom('ite', (g, a, b), ('n',), lo, hi))


_rp = {}


def restrict_poly(p, g):
    """simplify ite atoms inside p knowing g holds (top-level ites only, recursively)"""
    if g is TRUE or not p.t:
        return p
    k = (p, g)
    r = _rp.get(k)
    if r is not None:
        return r
    r = p
    for aid in p.atoms():
        a = _atom_list[aid]
        if a.kind == 'ite':
            c = constrain(a.args[0], g)
            if c is a.args[0]:
                na = restrict_poly(a.args[1], g)
                nb = restrict_poly(a.args[2], g)
                if na == a.args[1] and nb == a.args[2]:
                    continue
                new = ite(c, na, nb)
            else:
                new = ite(c, restrict_poly(a.args[1], g), restrict_poly(a.args[2], g))
            r = poly_replace(r, aid, new)
    _rp[k] = r
    return r


def poly_replace(p, aid, new):
    """replace atom aid (top level) by poly"""
    out = ZERO
    d = {}
    for m, c in p.t:
        e = dict(m).get(aid)
        if not e:
            d[m] = d.get(m, 0) + c
        else:
            rest = Poly.make({tuple(x for x in m if x[0] != aid): c})
            q = rest
            if e > 0:
                for _ in range(e):
                    q = q * new
            else:
                iv = inv(new)
                for _ in range(-e):
                    q = q * iv
            out = out + q
    return Poly.make(d) + out


# ---------------------------------------------------------------- interval
_iv = {}


def interval(p):
    r = _iv.get(p)
    if r is not None:
        return r
    lo, hi = 0, 0
    for m, c in p.t:
        l, h = mono_range(m)
        if c < 0:
            l, h = (None if h is None else h * c), (None if l is None else l * c)
        else:
            l, h = (None if l is None else l * c), (None if h is None else h * c)
        lo = None if lo is None or l is None else lo + l
        hi = None if hi is None or h is None else hi + h
        if lo is None and hi is None:
            break
    _iv[p] = (lo, hi)
    return lo, hi


def mono_range(m):
    if not m:
        return 1, 1
    lo, hi = 1, 1
    for aid, e in m:
        a = _atom_list[aid]
        al, ah = a.lo, a.hi
        if e < 0:
            # |int| >= 1 unknown; give up unless positive bounds
            if al is not None and al > 0:
                al, ah = (0 if ah is None else Fraction(1) / Fraction(ah)), Fraction(1) / Fraction(al)
            elif al is not None and al >= 0:
                al, ah = 0, None
            else:
                return None, None
            e = -e
        for _ in range(e):
            if lo is not None and lo >= 0 and al is not None and al >= 0:
                lo, hi = lo * al, (None if hi is None or ah is None else hi * ah)
            elif None in (lo, hi, al, ah):
                return None, None
            else:
                c = [lo * al, lo * ah, hi * al, hi * ah]
                lo, hi = min(c), max(c)
        if e % 2 == 0 and e > 0 and len(m) == 1:
            lo = 0 if lo is None or lo < 0 else lo
    return lo, hi


# ---------------------------------------------------------------- comparisons
def _is_int_poly(p):
    for m, c in p.t:
        if isinstance(c, Fraction):
            return False
        for a, e in m:
            if e < 0 or _atom_list[a].ty in (F64, F32):
                return False
    return True


def find_ite(p):
    for aid in sorted(p.atoms()):
        if _atom_list[aid].kind == 'ite':
            return _atom_list[aid]
    return None


_cmpc = {}


def _distribute(p, f, depth=0):
    k = (p, f)
    r = _cmpc.get(k)
    if r is not None:
        return r
    a = find_ite(p) if depth < 80 else None
    if a is None or _ite_count(p) > 64:
        r = f(p)
    else:
        g, x, y = a.args
        pt = poly_replace(restrict_but(p, a, g), a.id, x)
        pf = poly_replace(restrict_but(p, a, bnot(g)), a.id, y)
        r = bite(g, _distribute(pt, f, depth + 1), _distribute(pf, f, depth + 1))
    _cmpc[k] = r
    return r


def restrict_but(p, a, g):
    # restrict other ites under g, keeping atom a in place
    for aid in p.atoms():
        b = _atom_list[aid]
        if b.kind == 'ite' and b is not a:
            n = restrict_poly(Poly.atom(b), g)
            if n != Poly.atom(b):
                p = poly_replace(p, aid, n)
    return p


def _ite_count(p):
    return sum(1 for aid in p.atoms() if _atom_list[aid].kind == 'ite')


def gcd_list(l):
    g = 0
    for x in l:
        g = math.gcd(g, x)
    return g


def _le0(p):
    c = p.cval()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    lo, hi = interval(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    if not _is_int_poly(p):
        return lit(('qle', _fnorm(p)))
    g = gcd_list([c for m, c in p.t if m != ()])
    k = p.const_term()
    q = p - k
    if g > 1:
        q = Poly.make({m: c // g for m, c in q.t})
        k = -((-k) // g) if True else k   # g*q + k <= 0  <=>  q <= floor(-k/g)  <=> q + ceil(k/g) <= 0
    if k == 0 or k == 1:
        x = xor_pair(q if k == 0 else -q)
        if x is not None:
            return eq0(x) if k == 0 else bnot(eq0(x))
    # canonical sign
    if q.t[0][1] < 0:
        # -(q') + k <= 0  <=> q' >= k  <=> not (q' <= k-1)
        q2 = -q
        return bnot(lit(('le', q2 - (k - 1))))
    return lit(('le', q + k))


def xor_pair(p):
    """a - b when p is the exclusive or of two unsigned terms"""
    a = p.as_atom()
    if a is not None and a.kind == 'op' and a.args[0] == 'xor' and len(a.args) == 3 and interval(p)[0] == 0:
        return a.args[1] - a.args[2]
    return None


def le0(p):
    """int poly p <= 0"""
    return _distribute(p, _le0)


def lt(a, b):
    return le0(a - b + 1)


def le(a, b):
    return le0(a - b)


def _eq0(p):
    c = p.cval()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = interval(p)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return FALSE
    if lo is not None and lo == 0:
        return _le0(p)
    if hi is not None and hi == 0:
        return _le0(-p)
    if p.t[0][1] < 0 if p.t[0][0] != () else p.t[1][1] < 0:
        p = -p
    if _is_int_poly(p):
        g = gcd_list([c for m, c in p.t if m != ()])
        k = p.const_term()
        if g > 1:
            if k % g:
                return FALSE
            p = Poly.make({m: c // g for m, c in p.t})
    return lit(('eq', p))


def eq0(p):
    return _distribute(p, _eq0)


def eq(a, b):
    return eq0(a - b)


def _fnorm(p):
    for m, c in p.t:
        if m != ():
            k = abs(c)
            if k != 1:
                return p.scale(Fraction(1) / Fraction(k))
            break
    return p


def has_nonreal(p):
    return False


def _flt0(p):
    c = p.cval()
    if c is not None:
        return TRUE if c < 0 else FALSE
    return lit(('flt', _fnorm(p)))


def _fle0(p):
    c = p.cval()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return lit(('fle', _fnorm(p)))


def _feq0(p):
    c = p.cval()
    if c is not None:
        return TRUE if c == 0 else FALSE
    q = _fnorm(p)
    for m, c in q.t:
        if m != ():
            if c < 0:
                q = -q
            break
    return lit(('feq', q))


def flt0(p):
    return _distribute(p, _flt0)


def fle0(p):
    return _distribute(p, _fle0)


def feq0(p):
    return _distribute(p, _feq0)


# ---------------------------------------------------------------- int arithmetic
def divisible(p, k):
    return all(isinstance(c, int) and c % k == 0 for m, c in p.t)


def poly_divides(p, q):
    """exact quotient p/q if found syntactically (q single monomial), else None"""
    if len(q.t) != 1:
        if p == q:
            return ONE
        if not p.t:
            return ZERO
        # try a single-term quotient
        c0 = p.t[-1]
        for mq, cq in q.t:
            pass
        return None
    mq, cq = q.t[0]
    dq = dict(mq)
    out = {}
    for m, c in p.t:
        dm = dict(m)
        for a, e in dq.items():
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
        r = Fraction(c) / Fraction(cq)
        if r.denominator != 1:
            return None
        out[tuple(sorted((a, e) for a, e in dm.items() if e))] = r.numerator
    return Poly.make(out)


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def idiv(p, q, signed=False):
    """truncated integer division, q != 0 assumed"""
    a = find_ite(p)
    if a is not None and _ite_count(p) <= 2:
        g, x, y = a.args
        return ite(g, idiv(poly_replace(p, a.id, x), q, signed), idiv(poly_replace(p, a.id, y), q, signed))
    cp, cq = p.cval(), q.cval()
    if cp is not None and cq is not None and cq != 0:
        return C(trunc_div(cp, cq))
    if cq == 1:
        return p
    e = poly_divides(p, q)
    if e is not None:
        return e
    lo, hi = interval(p)
    if cq is not None and cq > 0:
        if lo is not None and lo >= 0:
            # floor division: pull out divisible part
            d, r = {}, {}
            for m, c in p.t:
                if isinstance(c, int):
                    # keep remainder coefficients in [0,cq)
                    k, rr = divmod(c, cq)
                    if k:
                        d[m] = k
                    if rr:
                        r[m] = rr
            dq, rp = Poly.make(d), Poly.make(r)
            rl, rh = interval(rp)
            if dq.t and rl is not None and rl >= 0:
                return dq + idiv(rp, q, signed)
            if hi is not None and hi < cq:
                return ZERO
            # common factor
            g = gcd_list([c for m, c in p.t] + [cq])
            if g > 1:
                return idiv(Poly.make({m: c // g for m, c in p.t}), C(cq // g), signed)
            at = p.as_atom()
            if at is not None and at.kind == 'op' and at.args[0] == 'div':
                c2 = at.args[2].cval()
                if c2 is not None and c2 > 0 and (interval(at.args[1])[0] or 0) >= 0:
                    return idiv(at.args[1], C(c2 * cq), signed)
            return op('div', (p, q), None, lo // cq, None if hi is None else hi // cq)
        return op('div', (p, q), None, None if lo is None else trunc_div(lo, cq), None if hi is None else trunc_div(hi, cq))
    ql, qh = interval(q)
    if lo is not None and lo >= 0 and ql is not None and ql >= 0:
        # floor division by a symbolic q: pull out multiples of q
        if len(q.t) == 1:
            d, r = {}, {}
            for m, c in p.t:
                e = poly_divides(Poly(((m, c),)), q)
                if e is not None:
                    for mm, cc in e.t:
                        d[mm] = d.get(mm, 0) + cc
                else:
                    r[m] = c
            dq, rp = Poly.make(d), Poly.make(r)
            rl, rh = interval(rp)
            if dq.t and rl is not None and rl >= 0:
                return dq + idiv(rp, q, signed)
        return op('div', (p, q), None, 0, hi)
    if len(p.t) == 1 and p.t[0][1] == 1 and p.t[0][0][-1:] and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1:
        a = _atom_list[p.t[0][0][0][0]]
        if a.kind == 'sum' and a.args[1] == q and (ql or 0) >= 0:
            # the truncated mean of values lies between their bounds
            bl, bh = interval(a.args[2])
            if bl is not None and bh is not None and _is_int_poly(a.args[2]):
                return op('div', (p, q), None, bl, bh)
    mag = None
    if lo is not None and hi is not None:
        mag = max(abs(lo), abs(hi))
    return op('div', (p, q), None, None if mag is None else -mag, mag)


def irem(p, q, signed=False):
    cp, cq = p.cval(), q.cval()
    if cp is not None and cq:
        return C(cp - cq * trunc_div(cp, cq))
    return p - q * idiv(p, q, signed)


def trailing_zeros(p):
    g = gcd_list([c if isinstance(c, int) else 1 for m, c in p.t])
    if g == 0:
        return 64
    n = 0
    while g % 2 == 0:
        g //= 2
        n += 1
    return n


# ---------------------------------------------------------------- floats
def round_f(x, bits):
    if bits == 32:
        try:
            return struct.unpack('f', struct.pack('f', x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf
    return x


def fconst(x):
    if math.isnan(x):
        return op('nan', (), F64)
    if math.isinf(x):
        return op('inf' if x > 0 else 'ninf', (), F64)
    return Poly.const(Fraction(x))


def fval(p):
    """python float of a constant poly, or None"""
    c = p.cval()
    if c is None:
        return None
    return float(c)


def inv(q):
    if len(q.t) == 1:
        m, c = q.t[0]
        return Poly.make({tuple((a, -e) for a, e in m): Fraction(1) / Fraction(c)})
    a = _atom('par', (q,), ('n',))
    return Poly(((((a.id, -1),), 1),))


def fdiv(p, q, bits=64):
    cp, cq = p.cval(), q.cval()
    if cq is not None:
        if cq == 0:
            return op('fdiv0', (p,), F64)
        if cp is not None:
            return fconst(round_f(float(cp) / float(cq), bits))
        return p.scale(Fraction(1) / Fraction(cq))
    a = find_ite(q)
    if a is not None:
        g, x, y = a.args
        qx, qy = poly_replace(q, a.id, x), poly_replace(q, a.id, y)
        if qx.cval() != 0 and qy.cval() != 0:
            return ite(g, fdiv(p, qx, bits), fdiv(p, qy, bits))
    if len(q.t) > 1:
        if p == q:
            return ONE
        # p = k*q ?
        k = Fraction(p.t[0][1]) / Fraction(q.t[0][1]) if p.t else 0
        if p.t and q.scale(k) == p:
            return C(k)
    return p * inv(q)


# ---------------------------------------------------------------- sums
def mksum(var, n, body):
    """sum_{var=0}^{n-1} body.  var: sym poly"""
    va = var.as_atom()
    if va.id not in body.deps():
        return body * n
    c = n.cval()
    if c is not None and c <= 64:
        r = ZERO
        for i in range(int(c)):
            r = r + subst(body, {va.id: C(i)})
        return r
    # canonical bound variable
    bv = sym('$s%d' % _depth(body), ('i', False, 64))
    body2 = subst(body, {va.id: bv})
    r = ZERO
    # linearity
    for m, co in body2.t:
        t = Poly(((m, 1),))
        if bv.as_atom().id not in t.deps():
            r = r + (t * n).scale(co)
        elif t == bv:
            # sum of 0..n-1 -> n(n-1)/2
            r = r + (n * n - n).scale(Fraction(co) / 2)
        else:
            # pull factors not depending on the variable
            inn, out = [], []
            for a, e in m:
                (inn if bv.as_atom().id in atom_deps(_atom_list[a]) else out).append((a, e))
            tin = Poly(((tuple(inn), 1),))
            tout = Poly(((tuple(out), 1),))
            lo, hi = interval(tin)
            nl, nh = interval(n)
            slo = shi = None
            if lo is not None:
                slo = 0 if lo >= 0 else (None if nh is None else lo * nh)
            if hi is not None:
                shi = 0 if hi <= 0 else (None if nh is None else hi * nh)
            r = r + (Poly.atom(_atom('sum', (bv, n, tin), ('n',), slo, shi)) * tout).scale(co)
    return r


def _depth(p):
    """nesting depth of sums"""
    d = 0
    for a in p.atoms():
        d = max(d, _adepth(_atom_list[a]))
    return d


def _adepth(a):
    if a.kind == 'sum':
        return 1 + max(_depth(a.args[2]), _depth(a.args[1]))
    d = 0
    for x in a.args:
        d = max(d, _xdepth(x))
    return d


def _xdepth(x):
    if isinstance(x, Poly):
        return _depth(x)
    if isinstance(x, (tuple, list)):
        return max([_xdepth(y) for y in x] + [0])
    return 0


# ---------------------------------------------------------------- substitution
_rebuild = {}     # op name -> function(args, ty) used when rebuilding after substitution


def rebuilder(name):
    def d(f):
        _rebuild[name] = f
        return f
    return d


@rebuilder('div')
def _rb_div(args, ty):
    return idiv(args[0], args[1])


class Subst:
    def __init__(self, m):
        self.m = m            # atomid -> Poly   (syms; also bool syms -> Bdd)
        self.keys = frozenset(m)
        self.pc = {}
        self.bc = {}
        self.oc = {}

    def poly(self, p):
        if not (p.deps() & self.keys):
            return p
        r = self.pc.get(p)
        if r is not None:
            return r
        out = {}
        acc = ZERO
        for m, c in p.t:
            hit = False
            for a, e in m:
                if atom_deps(_atom_list[a]) & self.keys:
                    hit = True
            if not hit:
                out[m] = out.get(m, 0) + c
                continue
            q = C(c)
            for a, e in m:
                x = self.atom(_atom_list[a])
                if e < 0:
                    x = inv(x)
                    e = -e
                for _ in range(e):
                    q = q * x
            acc = acc + q
        r = Poly.make(out) + acc
        self.pc[p] = r
        return r

    def atom(self, a):
        if a.id in self.m:
            return self.m[a.id]
        if not (atom_deps(a) & self.keys):
            return Poly.atom(a)
        r = self.oc.get(a.id)
        if r is not None:
            return r
        if a.kind == 'ite':
            g, x, y = a.args
            r = ite(self.bdd(g), self.poly(x), self.poly(y))
        elif a.kind == 'sum':
            v, n, body = a.args
            r = mksum(v, self.poly(n), self.poly(body))
        elif a.kind == 'par':
            r = self.poly(a.args[0])
        elif a.kind == 'op':
            args = tuple(self.any(x) for x in a.args[1:])
            f = _rebuild.get(a.args[0])
            if f is not None:
                r = f(args, a.ty)
            else:
                r = op(a.args[0], args, a.ty, a.lo, a.hi)
        elif a.kind == 'elem':
            r = _elem_subst(self, a)
        else:
            r = Poly.atom(a)
        self.oc[a.id] = r
        return r

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Bdd):
            return self.bdd(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        f = getattr(x, 'subst', None)
        if f is not None:
            return f(self)
        return x

    def lit(self, key):
        k = key[0]
        if k == 'le':
            return le0(self.poly(key[1]))
        if k == 'eq':
            return eq0(self.poly(key[1]))
        if k == 'flt':
            return flt0(self.poly(key[1]))
        if k == 'fle':
            return fle0(self.poly(key[1]))
        if k == 'feq':
            return feq0(self.poly(key[1]))
        if k == 'b':
            v = self.m.get(key[1])
            if isinstance(v, Bdd):
                return v
            return lit(key)
        if k == 'bop':
            r = _brebuild.get(key[1])
            args = tuple(self.any(x) for x in key[2])
            return r(args) if r else lit(('bop', key[1], args))
        return lit(tuple(self.any(x) for x in key))

    def bdd(self, b):
        if b.v is None or not (b.deps() & self.keys):
            return b
        r = self.bc.get(b)
        if r is None:
            r = bite(self.lit(_lits[b.v]), self.bdd(b.hi), self.bdd(b.lo))
            self.bc[b] = r
        return r


_brebuild = {}
_elem_subst = None


def set_elem_subst(f):
    global _elem_subst
    _elem_subst = f


def lit_deps(key):
    return deps_of(key)


def subst(x, m):
    return Subst(m).any(x)


# make ('b', atomid) literals contribute their symbol to deps
_orig_deps_of = deps_of


def deps_of(x):          # noqa: F811
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'b' and isinstance(x[1], int):
        return frozenset([x[1]])
    if isinstance(x, Poly):
        return x.deps()
    if isinstance(x, Bdd):
        return x.deps()
    if isinstance(x, (tuple, list)):
        s = frozenset()
        for y in x:
            s = s | deps_of(y)
        return s
    d = getattr(x, 'deps', None)
    if d is not None and callable(d):
        return d()
    return frozenset()


# ---------------------------------------------------------------- printing
def show_num(c):
    if isinstance(c, Fraction):
        f = float(c)
        if Fraction(f) == c:
            return repr(f)
        return str(c)
    return str(c)


def show_atom(a):
    if a.kind == 'sym':
        return a.args[0]
    if a.kind == 'op':
        return '%s(%s)' % (a.args[0], ', '.join(show(x) for x in a.args[1:]))
    if a.kind == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x) for x in a.args)
    if a.kind == 'sum':
        return 'sum[%s<%s](%s)' % tuple(show(x) for x in a.args)
    if a.kind == 'elem':
        return '%s[%s]%s' % (show(a.args[0]), show(a.args[1]), ''.join('.%s' % (x,) for x in a.args[2]))
    if a.kind == 'par':
        return '(%s)' % show(a.args[0])
    return '%s%r' % (a.kind, a.args)


_bud = [None]
SHOW_NODES = 2500


def show(x):
    """text of a term, bounded in size"""
    if _bud[0] is None:
        _bud[0] = SHOW_NODES
        try:
            return _show(x)
        finally:
            _bud[0] = None
    _bud[0] -= 1
    if _bud[0] <= 0:
        return '..'
    return _show(x)


def _show(x):
    if isinstance(x, Poly):
        if not x.t:
            return '0'
        out = []
        for m, c in x.t:
            if _bud[0] is not None and _bud[0] <= 0:
                out.append('..')
                break
            s = '*'.join(show_atom(_atom_list[a]) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not s:
                s = show_num(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = show_num(c) + '*' + s
            out.append(s)
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(x, Bdd):
        return show_bdd(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(show(y) for y in x) + ')'
    return str(x)


def show_lit(v, pos=True):
    k = _lits[v]
    if k[0] == 'le':
        s = '%s %s 0' % (show(k[1]), '<=' if pos else '>')
    elif k[0] == 'eq':
        s = '%s %s 0' % (show(k[1]), '==' if pos else '!=')
    elif k[0] == 'flt':
        s = ('%s < 0.0' if pos else 'not(%s < 0.0)') % show(k[1])
    elif k[0] == 'fle':
        s = ('%s <= 0.0' if pos else 'not(%s <= 0.0)') % show(k[1])
    elif k[0] == 'b':
        s = ('' if pos else '!') + show_atom(_atom_list[k[1]])
    elif k[0] == 'bop':
        s = ('' if pos else '!') + '%s%s' % (k[1], show(k[2]))
    else:
        s = ('' if pos else '!') + str(k)
    return s


def show_bdd(b, n=0):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    L = show_lit(b.v)
    if b.hi is TRUE and b.lo is FALSE:
        return '[' + L + ']'
    if b.hi is FALSE and b.lo is TRUE:
        return '[' + show_lit(b.v, False) + ']'
    if n > 12:
        return '...'
    if b.lo is FALSE:
        return '[%s]&%s' % (L, show_bdd(b.hi, n + 1))
    if b.hi is FALSE:
        return '[%s]&%s' % (show_lit(b.v, False), show_bdd(b.lo, n + 1))
    return '([%s]?%s:%s)' % (L, show_bdd(b.hi, n + 1), show_bdd(b.lo, n + 1))


# ---------------------------------------------------------------- evaluation at witness points
class Unknown(Exception):
    pass


class Eval:
    """evaluate a closed-form term at an assignment of its symbols (exact rationals)"""
    def __init__(self, env, arr=None):
        self.env = env          # sym name -> number/bool
        self.arr = arr or {}    # array sym name -> function(index, proj)

    def poly(self, p):
        tot = 0
        for m, c in p.t:
            v = c
            for a, e in m:
                x = self.atom(_atom_list[a])
                if e < 0:
                    if x == 0:
                        raise Unknown('division by zero')
                    v = v * (Fraction(1) / Fraction(x)) ** (-e) if not isinstance(x, float) else v * x ** e
                else:
                    v = v * x ** e
            tot = tot + v
        return norm(tot)

    def bdd(self, b):
        while b.v is not None:
            b = b.hi if self.lit(_lits[b.v]) else b.lo
        return b is TRUE

    def lit(self, k):
        if k[0] in ('le', 'fle', 'qle'):
            return self.poly(k[1]) <= 0
        if k[0] in ('eq', 'feq'):
            return self.poly(k[1]) == 0
        if k[0] == 'flt':
            return self.poly(k[1]) < 0
        if k[0] == 'b':
            n = _atom_list[k[1]].args[0]
            if n in self.env:
                return self.env[n]
            raise Unknown(n)
        if k[0] == 'bop':
            f = EVAL_BOP.get(k[1])
            if f:
                return f(self, *k[2])
        raise Unknown(str(k[:2]))

    def atom(self, a):
        if a.kind == 'sym':
            n = a.args[0]
            if n in self.env:
                return self.env[n]
            raise Unknown(n)
        if a.kind == 'ite':
            return self.poly(a.args[1]) if self.bdd(a.args[0]) else self.poly(a.args[2])
        if a.kind == 'sum':
            n = self.poly(a.args[1])
            nm = a.args[0].as_atom().args[0]
            tot = 0
            old = self.env.get(nm)
            for i in range(int(n)):
                self.env[nm] = i
                tot += self.poly(a.args[2])
            if old is None:
                self.env.pop(nm, None)
            else:
                self.env[nm] = old
            return tot
        if a.kind == 'elem':
            arr, idx, proj = a.args
            return self.elem(arr, self.poly(idx), proj)
        if a.kind == 'par':
            return self.poly(a.args[0])
        if a.kind == 'op':
            f = EVAL_OP.get(a.args[0])
            if f is None:
                raise Unknown(a.args[0])
            return f(self, *a.args[1:])
        raise Unknown(a.kind)

    def elem(self, arr, idx, proj):
        f = self.arr.get(getattr(arr, 'name', None))
        if f is None:
            raise Unknown(str(arr))
        return f(idx, proj)


EVAL_OP = {}
EVAL_BOP = {}


def evop(name):
    def d(f):
        EVAL_OP[name] = f
        return f
    return d


@evop('div')
def _e_div(ev, p, q):
    a, b = ev.poly(p), ev.poly(q)
    if b == 0:
        raise Unknown('div by zero')
    return trunc_div(a, b)
