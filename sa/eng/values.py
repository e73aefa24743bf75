"""Abstract values: aggregates, guarded variants, containers with array terms, references."""
from .terms import *
from . import terms as T


class V:
    __slots__ = ('_k', '_h', '_d')
    def __init__(self, *a):
        self._k = a
        self._h = hash((type(self).__name__,) + a)
        self._d = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._h == o._h and self._k == o._k)

    def __ne__(self, o):
        return not self == o

    def deps(self):
        if self._d is None:
            self._d = deps_of(self._k)
        return self._d

    def subst(self, S):
        if not (self.deps() & S.keys):
            return self
        return self._rebuild(S)

    def _rebuild(self, S):
        return type(self)(*[S.any(x) for x in self._k])

    def __repr__(self):
        return '%s%s' % (type(self).__name__, T.show(self._k))
    __str__ = __repr__


class Undef(V):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg(V):
    """struct / tuple / closure environment; ty is a type id or None"""
    @property
    def f(self): return self._k[0]
    @property
    def ty(self): return self._k[1]
    def __init__(self, f, ty=None):
        V.__init__(self, tuple(f), ty)

    def with_field(self, i, v):
        f = list(self.f)
        while len(f) <= i:
            f.append(UNDEF)
        f[i] = v
        return Agg(tuple(f), self.ty)

    def __repr__(self):
        return '{%s}' % ', '.join(T.show(x) for x in self.f)


class Enum(V):
    """alts: tuple of (variant index, discr, guard, fields)"""
    @property
    def alts(self): return self._k[0]
    @property
    def ty(self): return self._k[1]
    def __init__(self, alts, ty=None):
        V.__init__(self, tuple(alts), ty)

    def guard(self, variant):
        r = FALSE
        for v, d, g, f in self.alts:
            if v == variant:
                r = bor(r, g)
        return r

    def fields(self, variant):
        for v, d, g, f in self.alts:
            if v == variant:
                return f
        return None

    def discr(self):
        r = None
        for v, d, g, f in self.alts:
            r = C(d) if r is None else ite(g, C(d), r)
        return r

    def with_field(self, variant, i, val):
        out = []
        for v, d, g, f in self.alts:
            if v == variant:
                f = list(f)
                while len(f) <= i:
                    f.append(UNDEF)
                f[i] = val
                f = tuple(f)
            out.append((v, d, g, f))
        return Enum(out, self.ty)

    def _rebuild(self, S):
        out = []
        for v, d, g, f in self.alts:
            g2 = S.bdd(g)
            if g2 is not FALSE:
                out.append((v, d, g2, S.any(f)))
        return Enum(out, self.ty)

    def __repr__(self):
        return 'enum<%s>' % ' | '.join('#%d if %s: %s' % (v, T.show(g), T.show(f)) for v, d, g, f in self.alts)


class SeqV(V):
    """array / Vec / slice contents / VecDeque: array term + length"""
    @property
    def arr(self): return self._k[0]
    @property
    def len(self): return self._k[1]
    def __init__(self, arr, len):
        V.__init__(self, arr, len)

    def __repr__(self):
        return 'seq(len=%s, %s)' % (T.show(self.len), self.arr)


class BoxV(V):
    @property
    def inner(self): return self._k[0]
    @property
    def dyn(self): return self._k[1]
    def __init__(self, inner, dyn=None):
        V.__init__(self, inner, dyn)

    def __repr__(self):
        return 'box(%s)' % (self.inner,)


class Ref(V):
    """obj + path (+ slice view (start,len)) (+ concrete type behind a dyn)"""
    @property
    def obj(self): return self._k[0]
    @property
    def path(self): return self._k[1]
    @property
    def view(self): return self._k[2]
    @property
    def dyn(self): return self._k[3]
    def __init__(self, obj, path=(), view=None, dyn=None):
        V.__init__(self, obj, tuple(path), view, dyn)

    def _rebuild(self, S):
        return Ref(self.obj, S.any(self.path), S.any(self.view), self.dyn)

    def __repr__(self):
        return '&%s%s%s' % (self.obj, ''.join('.%s' % T.show(p) for p in self.path), '' if self.view is None else '[%s;+%s]' % (T.show(self.view[0]), T.show(self.view[1])))


class FnVal(V):
    @property
    def inst(self): return self._k[0]


class IterV(V):
    """native iterator: desc (kind, ...), pos = elements already taken from the front, back = from the end"""
    @property
    def desc(self): return self._k[0]
    @property
    def pos(self): return self._k[1]
    @property
    def back(self): return self._k[2]
    def __init__(self, desc, pos=ZERO, back=ZERO):
        V.__init__(self, desc, pos, back)

    def __repr__(self):
        return 'iter(%s @%s)' % (T.show(self.desc), T.show(self.pos))


class Opq(V):
    @property
    def name(self): return self._k[0]
    @property
    def args(self): return self._k[1]
    def __init__(self, name, args=()):
        V.__init__(self, name, tuple(args))

    def __repr__(self):
        return '%s%s' % (self.name, T.show(self.args) if self.args else '')


class Gated(V):
    """alts: tuple of (guard, value), exclusive and exhaustive"""
    @property
    def alts(self): return self._k[0]

    def __repr__(self):
        return 'gated<%s>' % ' | '.join('%s: %s' % (T.show(g), T.show(v)) for g, v in self.alts)

    def _rebuild(self, S):
        return gated([(S.bdd(g), S.any(v)) for g, v in self.alts])


def gated(alts):
    out = {}
    order = []
    for g, v in alts:
        if g is FALSE:
            continue
        if isinstance(v, Gated):
            sub = [(band(g, g2), v2) for g2, v2 in v.alts]
        else:
            sub = [(g, v)]
        for g2, v2 in sub:
            if g2 is FALSE:
                continue
            if v2 in out:
                out[v2] = bor(out[v2], g2)
            else:
                out[v2] = g2
                order.append(v2)
    if not order:
        return UNDEF
    if len(order) == 1:
        return order[0]
    return Gated(tuple((out[v], v) for v in order))


# ------------------------------------------------------------- array terms
class Arr(V):
    pass


class ArrSym(Arr):
    """symbolic array; elty = type id"""
    @property
    def name(self): return self._k[0]
    @property
    def elty(self): return self._k[1]
    def __init__(self, name, elty):
        V.__init__(self, name, elty)
        self._d = frozenset([arr_id(name)])

    def _rebuild(self, S):
        r = S.m.get(arr_id(self.name))
        return self if r is None else r

    def __repr__(self):
        return '%s[]' % self.name


def arr_id(name):
    return sym(name + '[]', ('arr',)).as_atom().id


class ArrOp(Arr):
    """contents produced by an uninterpreted operation"""
    @property
    def name(self): return self._k[0] + '!'
    @property
    def args(self): return self._k[1]
    @property
    def elty(self): return self._k[2]
    def __init__(self, name, args, elty):
        V.__init__(self, name, tuple(args), elty)

    def _rebuild(self, S):
        return ArrOp(self._k[0], S.any(self.args), self.elty)

    def __repr__(self):
        return '%s%s[]' % (self._k[0], T.show(self.args))


class ArrFill(Arr):
    @property
    def v(self): return self._k[0]
    def __repr__(self):
        return 'fill(%s)' % T.show(self.v)


class ArrList(Arr):
    @property
    def vals(self): return self._k[0]
    def __init__(self, vals):
        V.__init__(self, tuple(vals))
    def __repr__(self):
        return '[%s]' % ', '.join(T.show(x) for x in self.vals)


class ArrStore(Arr):
    @property
    def base(self): return self._k[0]
    @property
    def idx(self): return self._k[1]
    @property
    def val(self): return self._k[2]
    def _rebuild(self, S):
        return ArrStore(S.any(self.base), S.any(self.idx), S.any(self.val))
    def __repr__(self):
        return '%s with [%s]=%s' % (self.base, T.show(self.idx), T.show(self.val))


class ArrComp(Arr):
    """base, but index lo+j (0<=j<n) holds val[var:=j]"""
    @property
    def base(self): return self._k[0]
    @property
    def lo(self): return self._k[1]
    @property
    def n(self): return self._k[2]
    @property
    def var(self): return self._k[3]
    @property
    def val(self): return self._k[4]

    def deps(self):
        if self._d is None:
            self._d = deps_of(self._k[:3]) | (deps_of(self.val) - frozenset([self.var.as_atom().id]))
        return self._d

    def _rebuild(self, S):
        return mkcomp(S.any(self.base), S.any(self.lo), S.any(self.n), self.var, S.any(self.val))

    def __repr__(self):
        return '%s with [%s+%s | %s<%s]=%s' % (self.base, T.show(self.lo), T.show(self.var), T.show(self.var), T.show(self.n), T.show(self.val))


class ArrShift(Arr):
    """element i is base[i+off]"""
    @property
    def base(self): return self._k[0]
    @property
    def off(self): return self._k[1]
    def _rebuild(self, S):
        return mkshift(S.any(self.base), S.any(self.off))
    def __repr__(self):
        return '(%s >> %s)' % (self.base, T.show(self.off))


class ArrCopy(Arr):
    """base, but index dlo+j (0<=j<n) holds src[slo+j]"""
    @property
    def base(self): return self._k[0]
    @property
    def dlo(self): return self._k[1]
    @property
    def n(self): return self._k[2]
    @property
    def src(self): return self._k[3]
    @property
    def slo(self): return self._k[4]
    def _rebuild(self, S):
        return mkcopy(*[S.any(x) for x in self._k])
    def __repr__(self):
        return '%s with [%s..+%s]=%s[%s..]' % (self.base, T.show(self.dlo), T.show(self.n), self.src, T.show(self.slo))


class ArrIte(Arr):
    @property
    def g(self): return self._k[0]
    @property
    def a(self): return self._k[1]
    @property
    def b(self): return self._k[2]
    def _rebuild(self, S):
        return arr_ite(*[S.any(x) for x in self._k])
    def __repr__(self):
        return '(%s ? %s : %s)' % (T.show(self.g), self.a, self.b)


def arr_ite(g, a, b):
    if g is TRUE or a == b:
        return a
    if g is FALSE:
        return b
    return ArrIte(g, a, b)


def mkshift(base, off):
    if off == ZERO:
        return base
    if isinstance(base, ArrFill):
        return base
    if isinstance(base, ArrShift):
        return mkshift(base.base, base.off + off)
    if isinstance(base, ArrList) and off.cval() is not None and 0 <= off.cval() <= len(base.vals):
        return ArrList(base.vals[int(off.cval()):])
    return ArrShift(base, off)


def mkcopy(base, dlo, n, src, slo):
    if n == ZERO:
        return base
    if isinstance(src, ArrShift):
        return mkcopy(base, dlo, n, src.base, slo + src.off)
    nc, dc, sc = n.cval(), dlo.cval(), slo.cval()
    if nc is not None and nc <= 64 and isinstance(src, ArrList) and sc is not None and sc + nc <= len(src.vals) \
            and isinstance(base, ArrList) and dc is not None and dc <= len(base.vals):
        l = list(base.vals)
        for j in range(int(nc)):
            if dc + j < len(l):
                l[int(dc) + j] = src.vals[int(sc) + j]
            else:
                l.append(src.vals[int(sc) + j])
        return ArrList(l)
    return ArrCopy(base, dlo, n, src, slo)


def mkcomp(base, lo, n, var, val):
    if n == ZERO:
        return base
    nc, lc = n.cval(), lo.cval()
    if nc is not None and nc <= 40:
        r = base
        for j in range(int(nc)):
            r = mkstore(r, lo + j, T.subst(val, {var.as_atom().id: C(j)}))
        return r
    if var.as_atom().id not in deps_of(val) and isinstance(base, ArrFill) and base.v == val:
        return base
    return ArrComp(base, lo, n, var, val)


def mkstore(base, idx, val):
    c = idx.cval()
    if isinstance(base, ArrList) and c is not None:
        c = int(c)
        if 0 <= c < len(base.vals):
            l = list(base.vals)
            l[c] = val
            return ArrList(l)
        if c == len(base.vals):
            return ArrList(base.vals + (val,))
    if isinstance(base, ArrFill) and base.v == val:
        return base
    if isinstance(base, ArrStore):
        if base.idx == idx:
            return mkstore(base.base, idx, val)
    return ArrStore(base, idx, val)


# ------------------------------------------------------------- merging
class MergeError(Exception):
    pass


def merge(g, a, b):
    """value equal to a where g, b where not g"""
    if a is b or g is TRUE or a == b:
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(g, a, b)
    if isinstance(a, Bdd) and isinstance(b, Bdd):
        return bite(g, a, b)
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is Agg and len(a.f) == len(b.f):
            return Agg(tuple(merge(g, x, y) for x, y in zip(a.f, b.f)), a.ty)
        if ta is SeqV:
            return SeqV(merge_arr(g, a.arr, b.arr), ite(g, a.len, b.len))
        if ta is BoxV and a.dyn == b.dyn:
            return BoxV(merge(g, a.inner, b.inner), a.dyn)
        if ta is Enum:
            alts = {}
            order = []
            for v, d, gg, f in a.alts:
                alts[v] = [d, band(g, gg), f, None, None]
                order.append(v)
            for v, d, gg, f in b.alts:
                if v in alts:
                    alts[v][3] = band(bnot(g), gg)
                    alts[v][4] = f
                else:
                    alts[v] = [d, None, None, band(bnot(g), gg), f]
                    order.append(v)
            out = []
            for v in order:
                d, g1, f1, g2, f2 = alts[v]
                if g1 is None or g1 is FALSE:
                    gg, f = g2, f2
                elif g2 is None or g2 is FALSE:
                    gg, f = g1, f1
                else:
                    gg = bor(g1, g2)
                    sel = constrain(g1, gg)
                    n = max(len(f1), len(f2))
                    f = tuple(merge(sel, f1[i] if i < len(f1) else UNDEF, f2[i] if i < len(f2) else UNDEF) for i in range(n))
                if gg is not None and gg is not FALSE:
                    out.append((v, d, gg, f))
            return Enum(out, a.ty)
        if ta is Ref and a.obj == b.obj and len(a.path) == len(b.path) and a.dyn == b.dyn \
                and (a.view is None) == (b.view is None):
            p = []
            ok = True
            for x, y in zip(a.path, b.path):
                if x == y:
                    p.append(x)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'x' and y[0] == 'x':
                    p.append(('x', ite(g, x[1], y[1])))
                else:
                    ok = False
            if ok:
                view = None if a.view is None else (ite(g, a.view[0], b.view[0]), ite(g, a.view[1], b.view[1]))
                return Ref(a.obj, tuple(p), view, a.dyn)
        if ta is IterV and a.desc == b.desc:
            return IterV(a.desc, ite(g, a.pos, b.pos), ite(g, a.back, b.back))
        if ta is IterV:
            m = merge_desc(g, a.desc, b.desc)
            if m is not None:
                return IterV(m, ite(g, a.pos, b.pos), ite(g, a.back, b.back))
    return gated([(g, a), (bnot(g), b)])


def merge_desc(g, a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        out = []
        for x, y in zip(a, b):
            if x == y:
                out.append(x)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                m = merge_desc(g, x, y)
                if m is None:
                    return None
                out.append(m)
            elif isinstance(x, (V, Poly, Bdd)) and isinstance(y, (V, Poly, Bdd)):
                m = merge(g, x, y)
                if isinstance(m, Gated) and isinstance(x, IterV):
                    return None
                out.append(m)
            else:
                return None
        return tuple(out)
    return None


def merge_arr(g, a, b):
    if a == b:
        return a
    if isinstance(a, ArrList) and isinstance(b, ArrList) and len(a.vals) == len(b.vals):
        return ArrList([merge(g, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, ArrStore) and a.base == b:
        return ArrIte(g, a, b)
    return arr_ite(g, a, b)


def map_gated(v, f):
    if isinstance(v, Gated):
        return gated([(g, f(x)) for g, x in v.alts])
    return f(v)
