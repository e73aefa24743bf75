"""Loop summaries: bounded unrolling while every exit test is decided, otherwise a fixpoint whose varying
leaves are induction variables, sums, element-wise array recurrences or (last resort) opaque symbols."""
from .terms import *
from . import terms as T
from .lp import Ctx
from .values import *
from . import interp as IN

KMAX = 1 << 62


def merge_outs(acc, outs):
    for t, s in outs.items():
        acc[t] = IN.merge_states(acc.get(t), s)


def do_loop(I, st, body, ctx, where, region=None, fr=None):
    I.stats['loops'] += 1
    start = st.fork()
    ev0 = len(I.events)
    acc = {}
    cur = st
    it = 0
    saved_pc = None
    while True:
        if it >= I.unroll:
            del I.events[ev0:]
            acc = {}
            cur = start
            break
        ne = len(I.events)
        saved = cur.fork()
        outs = body(cur, it)
        back = outs.pop('back', None)
        if back is None or back.pc is FALSE:
            merge_outs(acc, outs)
            return acc
        if not outs:
            it += 1
            cur = back
            continue
        # undecided: peel a few iterations, in case the loop is then seen to end
        peel = dict(acc)
        merge_outs(peel, outs)
        pcur = back
        for j in range(I.peel):
            o2 = body(pcur.fork(), it + 1 + j)
            b2 = o2.pop('back', None)
            merge_outs(peel, o2)
            if b2 is None or b2.pc is FALSE:
                return peel
            pcur = b2
        if it <= 2:
            del I.events[ev0:]
            cur = start
        else:
            del I.events[ne:]
            cur = saved
        break
    merge_outs(acc, summarize(I, cur, body, ctx, where))
    return acc


# ---------------------------------------------------------------- value decomposition
def children(v):
    t = type(v)
    if t is Agg:
        return [(('f', i), x) for i, x in enumerate(v.f)]
    if t is BoxV:
        return [(('b',), v.inner)]
    if t is SeqV:
        if isinstance(v.arr, ArrList) and len(v.arr.vals) <= 32 and v.len.cval() is not None:
            return [(('l', i), x) for i, x in enumerate(v.arr.vals)]
        return [(('arr',), v.arr), (('len',), v.len)]
    if t is Enum:
        return [(('e', a[0], i), x) for a in v.alts for i, x in enumerate(a[3])]
    if t is Ref:
        out = [(('rx', i), p[1]) for i, p in enumerate(v.path) if isinstance(p, tuple) and p[0] == 'x']
        if v.view is not None:
            out += [(('rv', 0), v.view[0]), (('rv', 1), v.view[1])]
        return out
    if t is IterV:
        return [(('pos',), v.pos), (('back',), v.back)] + desc_children(v.desc, ('d',))
    return []


def desc_children(d, path):
    out = []
    for i, x in enumerate(d):
        if isinstance(x, tuple):
            out += desc_children(x, path + (i,))
        elif isinstance(x, (V, Poly, Bdd)):
            out.append((path + (i,), x))
    return out


def desc_rebuild(d, m, path):
    return tuple(desc_rebuild(x, m, path + (i,)) if isinstance(x, tuple) else m.get(path + (i,), x) for i, x in enumerate(d))


def rebuild(v, m):
    t = type(v)
    if t is Agg:
        return Agg([m.get(('f', i), x) for i, x in enumerate(v.f)], v.ty)
    if t is BoxV:
        return BoxV(m.get(('b',), v.inner), v.dyn)
    if t is SeqV:
        if any(k[0] == 'l' for k in m):
            return SeqV(ArrList([m.get(('l', i), x) for i, x in enumerate(v.arr.vals)]), v.len)
        return SeqV(m.get(('arr',), v.arr), m.get(('len',), v.len))
    if t is Enum:
        return Enum([(a[0], a[1], a[2], tuple(m.get(('e', a[0], i), x) for i, x in enumerate(a[3]))) for a in v.alts], v.ty)
    if t is Ref:
        p = tuple(('x', m.get(('rx', i), p[1])) if isinstance(p, tuple) and p[0] == 'x' else p for i, p in enumerate(v.path))
        view = v.view
        if view is not None:
            view = (m.get(('rv', 0), view[0]), m.get(('rv', 1), view[1]))
        return Ref(v.obj, p, view, v.dyn)
    if t is IterV:
        return IterV(desc_rebuild(v.desc, m, ('d',)), m.get(('pos',), v.pos), m.get(('back',), v.back))
    return v


def same_shape(a, b):
    if type(a) is not type(b):
        return False
    t = type(a)
    if t is Agg:
        return len(a.f) == len(b.f)
    if t is BoxV:
        return a.dyn == b.dyn
    if t is SeqV:
        la = isinstance(a.arr, ArrList) and len(a.arr.vals) <= 32 and a.len.cval() is not None
        lb = isinstance(b.arr, ArrList) and len(b.arr.vals) <= 32 and b.len.cval() is not None
        return la == lb and (not la or len(a.arr.vals) == len(b.arr.vals))
    if t is Enum:
        return len(a.alts) == len(b.alts) and all(x[0] == y[0] and x[2] is y[2] and len(x[3]) == len(y[3]) for x, y in zip(a.alts, b.alts))
    if t is Ref:
        return a.obj == b.obj and len(a.path) == len(b.path) and (a.view is None) == (b.view is None) and a.dyn == b.dyn \
            and all(x == y or (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'x' and y[0] == 'x') for x, y in zip(a.path, b.path))
    if t is IterV:
        return desc_shape(a.desc) == desc_shape(b.desc)
    return False


def desc_shape(d):
    return tuple(desc_shape(x) if isinstance(x, tuple) else ('V' if isinstance(x, (V, Poly, Bdd)) else x) for x in d)


class Summ:
    def __init__(self, I, base, ctx):
        self.I = I
        self.base = base
        self.ctx = ctx
        self.plan = {}        # (obj, path) -> spec tuple
        self.prefix = {}      # obj -> set of path prefixes
        self.bad = set()      # (path, kind) failed upgrades
        self.k = sym('k%d' % ctx, USIZE, 0, KMAX)
        self.kid = self.k.as_atom().id
        self.invs = []

    # ---- typing of leaves
    def tyof(self, obj, path):
        I = self.I
        t = None
        if isinstance(obj, tuple) and len(obj) == 2 and isinstance(obj[0], int) and obj[0] in I.frame_bodies:
            t = I.frame_bodies[obj[0]]['locals'][obj[1]]
        elif obj in I.objty:
            t = I.objty[obj]
        for c in path:
            if t is None or not isinstance(t, int):
                if c[0] in ('len', 'pos', 'back', 'rx', 'rv'):
                    return USIZE
                return None
            x = I.ty[t]
            k = c[0]
            if k in ('len', 'pos', 'back', 'rx', 'rv'):
                return USIZE
            if k == 'f':
                if x['k'] == 'tuple':
                    t = x['elems'][c[1]]
                elif x['k'] == 'closure':
                    t = x['upvars'][c[1]]
                elif x['k'] == 'adt' and x['variants']:
                    f = x['variants'][0]['fields']
                    t = f[c[1]][1] if c[1] < len(f) else None
                else:
                    t = None
            elif k == 'e':
                v = x['variants'][c[1]]['fields'] if x['k'] == 'adt' and x['variants'] else []
                t = v[c[2]][1] if c[2] < len(v) else None
            elif k == 'b':
                t = I.targ(t) if x['k'] == 'adt' else None
            elif k in ('arr', 'l'):
                e = x.get('elem')
                if e is None and x['k'] == 'adt':
                    try:
                        e = I.targ(t)
                    except Exception:
                        e = None
                t = ('arr', e) if k == 'arr' else e
            else:
                t = None
        return t

    def numty(self, obj, path, v):
        t = self.tyof(obj, path)
        if isinstance(t, int):
            n = self.I.numty(t)
            if n is not None:
                return n
            if self.I.kind(t) == 'bool':
                return ('i', False, 8)
        elif isinstance(t, tuple) and t and t[0] in ('i', 'f'):
            return t
        # guess
        from fractions import Fraction
        for m, c in v.t:
            if isinstance(c, Fraction):
                return F64
            for a, e in m:
                if getatom(a).ty in (F64, F32):
                    return F64
        return ('n',)

    def name(self, obj, path):
        return '?phi%d.%s.%s' % (self.ctx, self.objname(obj), '.'.join('_'.join(str(x) for x in c) for c in path))

    def objname(self, obj):
        if isinstance(obj, tuple) and len(obj) == 2 and isinstance(obj[0], int):
            return 'L%d_%d' % obj
        return str(obj)

    # ---- header value
    def phi(self, obj, path, init, spec):
        nm = self.name(obj, path)
        if isinstance(init, Poly):
            p = sym(nm, self.numty(obj, path, init))
            self.I.created.append(p.as_atom().id)
            return p
        if isinstance(init, Bdd):
            self.I.created.append(sym(nm, ('bool',)).as_atom().id)
            return bsym(nm)
        if isinstance(init, Arr):
            self.I.created.append(arr_id(nm))
            return ArrSym(nm, self.elty(obj, path, init))
        s = sym(nm, ('opq',))
        self.I.created.append(s.as_atom().id)
        return Opq('?phi', (s,))

    def elty(self, obj, path, arr):
        t = self.tyof(obj, path)
        if isinstance(t, tuple) and t and t[0] == 'arr' and t[1] is not None:
            return t[1]
        return arr_elty(arr)

    def header(self, obj, path, init, k):
        """value at the loop header in iteration k"""
        sp = self.plan.get((obj, path))
        if sp is not None:
            kind = sp[0]
            if kind == 'phi':
                return self.phi(obj, path, init, sp)
            if kind == 'iv':
                return init + sp[1] * k
            if kind == 'sum':
                v = sym('j%d' % self.ctx, USIZE, 0, KMAX)
                return init + mksum(v, k, T.subst(sp[1], {self.kid: v}))
            if kind == 'prev':
                g = eq0(k)
                return merge(g, init, T.subst(sp[1], {self.kid: k - 1})) if not isinstance(init, Arr) else arr_ite(g, init, T.subst(sp[1], {self.kid: k - 1}))
            if kind == 'comp':
                a, b, val = sp[1], sp[2], sp[3]
                v = sym('j%d' % self.ctx, USIZE, 0, KMAX)
                if a == 1:
                    return mkcomp(init, b, k, v, T.subst(val, {self.kid: v}))
                return mkcomp(init, b - k + 1, k, v, T.subst(val, {self.kid: k - 1 - v}))
            if kind == 'lam':
                c, d, n = sp[1], sp[2], sp[3]
                v = sym('j%d' % self.ctx, USIZE, 0, KMAX)
                cv = sym('c%d' % self.ctx, USIZE, 0, KMAX)
                e0 = self.I.select(init, cv, Ctx())
                val = e0 + mksum(v, k, T.subst(d, {self.kid: v, c.as_atom().id: cv}))
                return ArrComp(init, ZERO, n, cv, val)
            if kind == 'enum':
                alts = []
                rest = TRUE
                items = sorted(sp[1].items())
                for n, (var, (disc, payload)) in enumerate(items):
                    if n == len(items) - 1:
                        g = rest
                    else:
                        b = bsym(self.name(obj, path) + '.is%d' % var)
                        self.I.created.append(sym(self.name(obj, path) + '.is%d' % var, ('bool',)).as_atom().id)
                        g = band(rest, b)
                        rest = band(rest, bnot(b))
                    pl = tuple(self.header(obj, path + (('e', var, i),), x, k) for i, x in enumerate(payload))
                    alts.append((var, disc, g, pl))
                return Enum(alts, sp[2])
            if kind == 'alts':
                alts = []
                rest = TRUE
                for n, v in enumerate(sp[1]):
                    if n == len(sp[1]) - 1:
                        g = rest
                    else:
                        b = bsym(self.name(obj, path) + '.alt%d' % n)
                        self.I.created.append(sym(self.name(obj, path) + '.alt%d' % n, ('bool',)).as_atom().id)
                        g = band(rest, b)
                        rest = band(rest, bnot(b))
                    alts.append((g, v))
                return gated(alts)
        pre = self.prefix.get(obj)
        if not pre or path not in pre:
            return init
        m = {}
        ch = children(init)
        if isinstance(init, SeqV) and path + (('arr',),) in pre:
            ch = [(('arr',), init.arr), (('len',), init.len)]
        for c, x in ch:
            p = path + (c,)
            if p in pre or (obj, p) in self.plan:
                m[c] = self.header(obj, p, x, k)
        return rebuild(init, m) if m else init

    def setplan(self, obj, path, spec):
        self.plan[(obj, path)] = spec
        pre = self.prefix.setdefault(obj, set())
        for i in range(len(path) + 1):
            pre.add(path[:i])

    def drop_below(self, obj, path):
        for (o, p) in list(self.plan):
            if o == obj and len(p) > len(path) and p[:len(path)] == path:
                del self.plan[(o, p)]

    def instantiate(self, k):
        st = self.base.fork()
        for obj in self.prefix:
            if obj in st.mem:
                st.mem[obj] = self.header(obj, (), st.mem[obj], k)
        for c in self.invs:
            if not st.ctx().holds(c):
                st.assume = st.assume + ((TRUE, c),)
        return st

    # ---- discovery
    def variant(self, v):
        return bool(deps_of(v) & self.created)

    def compare(self, obj, path, init, h, b, bst):
        """h: header value, b: back-edge value. returns True if the plan changed"""
        sp = self.plan.get((obj, path))
        if sp is None:
            if h == b:
                return False
            if isinstance(h, Poly) and isinstance(b, Poly) and bst.ctx().equal(h, b):
                return False
            if b is UNDEF or h is UNDEF:
                # dead storage at the header or killed in the body: forget it
                if h is not UNDEF:
                    self.setplan(obj, path, ('phi',) if isinstance(init, (Poly, Bdd, Arr, Opq)) else ('opq',))
                    self.drop_below(obj, path)
                    return True
                return False
            if isinstance(init, SeqV) and (obj, path + (('arr',),)) in self.plan and isinstance(h, SeqV) and isinstance(b, SeqV):
                r = self.compare(obj, path + (('arr',),), init.arr, h.arr, b.arr, bst)
                return self.compare(obj, path + (('len',),), init.len, h.len, b.len, bst) or r
            if same_shape(h, b) and same_shape(init, h):
                ch = dict(children(h))
                cb = dict(children(b))
                ci = dict(children(init))
                r = False
                for c in ch:
                    if c in cb and c in ci:
                        r |= self.compare(obj, path + (c,), ci[c], ch[c], cb[c], bst)
                return r
            self.mark(obj, path, init, h, b)
            return True
        kind = sp[0]
        if kind == 'phi':
            return False
        if kind == 'opq':
            return False
        if kind == 'enum':
            r = False
            bs = [b] if not isinstance(b, Gated) else [x for g, x in b.alts]
            for bb in bs:
                if not isinstance(bb, Enum):
                    self.setplan(obj, path, ('phi',))
                    self.drop_below(obj, path)
                    return True
                for var, disc, g, pl in bb.alts:
                    if var not in sp[1]:
                        sp[1][var] = (disc, pl)
                        r = True
                    else:
                        hp = h.fields(var)
                        ip = sp[1][var][1]
                        for i in range(len(pl)):
                            r |= self.compare(obj, path + (('e', var, i),), ip[i], hp[i], pl[i], bst)
            return r
        if kind == 'alts':
            seen = sp[1]
            bs = [b] if not isinstance(b, Gated) else [x for g, x in b.alts]
            r = False
            for x in bs:
                if x not in seen:
                    if self.variant(x) or len(seen) >= 4:
                        self.setplan(obj, path, ('phi',))
                        return True
                    seen = seen + [x]
                    r = True
            if r:
                self.setplan(obj, path, ('alts', seen))
            return r
        return False

    def mark(self, obj, path, init, h, b):
        self.drop_below(obj, path)
        if isinstance(init, Poly) and isinstance(b, Poly):
            d = b - h
            if d.cval() is not None and ((obj, path), 'iv') not in self.bad:
                self.setplan(obj, path, ('iv', d))
                return
            self.setplan(obj, path, ('phi',))
            return
        if isinstance(init, (Bdd, Arr)) and (isinstance(b, (Bdd, Arr))):
            self.setplan(obj, path, ('phi',))
            return
        if isinstance(init, Enum):
            m = {}
            for x in (init, b):
                xs = [x] if not isinstance(x, Gated) else [y for g, y in x.alts]
                for y in xs:
                    if isinstance(y, Enum):
                        for var, disc, g, pl in y.alts:
                            m.setdefault(var, (disc, pl))
            self.setplan(obj, path, ('enum', m, init.ty))
            return
        if isinstance(init, SeqV) and isinstance(b, SeqV):
            # e.g. list vs store: widen contents and length separately
            self.setplan(obj, path + (('arr',),), ('phi',))
            if h.len != b.len:
                d = b.len - h.len
                self.setplan(obj, path + (('len',),), ('iv', d) if d.cval() is not None else ('phi',))
            return
        if isinstance(init, Ref) or isinstance(init, Gated) and all(isinstance(x, (Ref, FnVal)) for g, x in init.alts) or isinstance(init, FnVal):
            seen = []
            for x in (init, b):
                xs = [x] if not isinstance(x, Gated) else [y for g, y in x.alts]
                for y in xs:
                    if y not in seen:
                        seen.append(y)
            if len(seen) <= 4 and not any(self.variant(x) for x in seen):
                self.setplan(obj, path, ('alts', seen))
                return
        self.setplan(obj, path, ('phi',))

    # ---- upgrades
    def get(self, v, path, create=None):
        for c in path:
            d = dict(children(v))
            if c not in d:
                if c[0] in ('arr', 'len') and isinstance(v, SeqV):
                    v = v.arr if c[0] == 'arr' else v.len
                    continue
                if c[0] == 'e' and isinstance(v, Enum):
                    return None
                return None
            v = d[c]
        return v

    def upgrade(self, H, back):
        """try to give each opaque leaf a closed form. True if the plan changed"""
        changed = False
        I = self.I
        bctx = back.ctx()
        for (obj, path), sp in list(self.plan.items()):
            if (obj, path) not in self.plan:
                continue
            key = (obj, path)
            h = self.get(H.mem.get(obj, UNDEF), path)
            b = self.get(back.mem.get(obj, UNDEF), path)
            init = self.get(self.base.mem.get(obj, UNDEF), path)
            if h is None or b is None or init is None:
                continue
            if sp[0] == 'phi':
                if isinstance(h, Poly) and isinstance(b, Poly):
                    d = bctx.simp_poly(b - h)
                    dv = d.deps() & self.created_all
                    if not dv and (key, 'iv') not in self.bad:
                        self.setplan(obj, path, ('iv', d))
                        changed = True
                        continue
                    if dv <= frozenset([self.kid]) and (key, 'sum') not in self.bad:
                        self.setplan(obj, path, ('sum', d))
                        changed = True
                        continue
                    bb = bctx.simp_poly(b)
                    if (bb.deps() & self.created_all) <= frozenset([self.kid]) and (key, 'prev') not in self.bad:
                        self.setplan(obj, path, ('prev', bb))
                        changed = True
                        continue
                elif isinstance(h, Bdd) and isinstance(b, Bdd):
                    if (b.deps() & self.created_all) <= frozenset([self.kid]) and (key, 'prev') not in self.bad:
                        self.setplan(obj, path, ('prev', b))
                        changed = True
                        continue
                elif isinstance(h, Arr) and isinstance(b, Arr):
                    s = self.arr_upgrade(key, obj, path, init, h, b, back)
                    if s is not None:
                        self.setplan(obj, path, s)
                        changed = True
                        continue
        return changed

    def arr_upgrade(self, key, obj, path, init, h, b, back):
        I = self.I
        ctx = back.ctx()
        allowed = frozenset([self.kid])
        if (key, 'prev') not in self.bad and not (deps_of(b) & self.created_all) - allowed:
            return ('prev', b)
        if not isinstance(h, ArrSym):
            return None
        hid = arr_id(h.name)
        idxs = store_idxs(b, h)
        if idxs is not None and (key, 'comp') not in self.bad:
            idxs = list(idxs)
            if len(idxs) == 1:
                idx = idxs[0]
                lin = idx.linear_in(self.kid)
                if lin is not None and lin[0].cval() in (1, -1) and not (lin[1].deps() & self.created_all):
                    a, off = int(lin[0].cval()), lin[1]
                    val = I.select(b, idx, ctx)
                    # reads of the old contents at the same index see the initial contents
                    val = self.replace_self(val, h, idx, init, ctx)
                    if val is not None and not (deps_of(val) & self.created_all) - allowed:
                        return ('comp', a, off, val)
        if (key, 'lam') not in self.bad:
            c = sym('c%d' % self.ctx, USIZE, 0, KMAX)
            d = self.delta(b, h, c, ctx)
            if d is not None:
                d = ctx.simp_poly(d)
                if not (d.deps() & self.created_all) - allowed:
                    n = self.get(self.base.mem[obj], path[:-1])
                    n = n.len if isinstance(n, SeqV) else None
                    if n is not None:
                        return ('lam', c, d, n)
        return None

    def delta(self, b, h, c, ctx, depth=0):
        """b[c] - h[c] for a chain of stores over h"""
        if b == h:
            return ZERO
        if depth > 40:
            return None
        if isinstance(b, ArrStore):
            d = self.delta(b.base, h, c, ctx, depth + 1)
            old = self.I.select(b.base, b.idx, ctx)
            if d is None or not isinstance(old, Poly) or not isinstance(b.val, Poly):
                return None
            return d + ite(eq(c, b.idx), b.val - old, ZERO)
        if isinstance(b, ArrIte):
            x, y = self.delta(b.a, h, c, ctx.cond(b.g), depth + 1), self.delta(b.b, h, c, ctx.cond(bnot(b.g)), depth + 1)
            return None if x is None or y is None else ite(b.g, x, y)
        return None

    def replace_self(self, val, h, idx, init, ctx):
        """substitute h[idx] by init[idx] in val; None if h is read elsewhere"""
        hid = arr_id(h.name)
        if hid not in deps_of(val):
            return val
        m = {}
        for aid in elem_atoms(val, h):
            a = getatom(aid)
            if ctx.equal(a.args[1], idx):
                e = self.I.select(init, idx, ctx)
                e = IN.project(self.I, e, a.args[2], a)
                m[aid] = e
            else:
                return None
        v2 = replace_atoms(val, m)
        if hid in deps_of(v2):
            return None
        return v2

    # ---- verification of closed forms
    def verify(self, H, back):
        """closed forms that are not inductive are downgraded. True if something was downgraded"""
        I = self.I
        ctx = back.ctx()
        bad = False
        for (obj, path), sp in list(self.plan.items()):
            if sp[0] in ('phi', 'enum', 'alts', 'opq'):
                continue
            key = (obj, path)
            init = self.get(self.base.mem.get(obj, UNDEF), path)
            if init is None:
                continue        # below an enum payload
            b = self.get(back.mem.get(obj, UNDEF), path)
            h1 = self.header(obj, path, init, self.k + 1)
            ok = False
            if b is None:
                ok = False
            elif h1 == b:
                ok = True
            elif isinstance(b, Poly) and isinstance(h1, Poly):
                ok = ctx.equal(ctx.simp_poly(b), ctx.simp_poly(h1))
            elif isinstance(b, Bdd) and isinstance(h1, Bdd):
                ok = ctx.simplify(bxor(b, h1)) is FALSE
            elif isinstance(b, Arr) and sp[0] == 'lam':
                d = self.delta(b, self.get(H.mem.get(obj, UNDEF), path), sp[1], ctx)
                ok = d is not None and ctx.equal(d, sp[2])
            elif isinstance(b, Arr):
                ok = self.arr_equal(b, h1, sp, ctx)
            if not ok:
                self.bad.add((key, sp[0]))
                self.setplan(obj, path, ('phi',))
                bad = True
        return bad

    def arr_equal(self, b, h1, sp, ctx):
        I = self.I
        if sp[0] == 'comp':
            a, off, val = sp[1], sp[2], sp[3]
            idx = off + self.k * a
            v1 = I.select(b, idx, ctx)
            if not val_equal(v1, val, ctx):
                return False
            idxs = store_idxs(b, None)
            return idxs is not None and all(ctx.equal(i, idx) for i in idxs)
        c = sym('c%d' % self.ctx, USIZE, 0, KMAX)
        cc = ctx
        return val_equal(I.select(b, c, cc), I.select(h1, c, cc), cc)


def val_equal(a, b, ctx):
    if a == b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ctx.equal(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return all(val_equal(x, y, ctx) for x, y in zip(a.f, b.f))
    if isinstance(a, Bdd) and isinstance(b, Bdd):
        return ctx.simplify(bxor(a, b)) is FALSE
    return False


def store_idxs(b, root):
    """indices stored over root along b; None if b has another structure. root None: stop at any non-store"""
    out = []
    work = [b]
    n = 0
    while work:
        x = work.pop()
        n += 1
        if n > 40:
            return None
        if root is not None and x == root:
            continue
        if isinstance(x, ArrStore):
            if x.idx not in out:
                out.append(x.idx)
            work.append(x.base)
        elif isinstance(x, ArrIte):
            work += [x.a, x.b]
        elif root is None:
            continue
        else:
            return None
    return out


def elem_atoms(v, arr, out=None, seen=None):
    """ids of elem atoms over array symbol arr anywhere inside v"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    hid = arr_id(arr.name)

    def go(x):
        if isinstance(x, Poly):
            if hid not in x.deps():
                return
            for aid in x.atoms():
                if aid in seen:
                    continue
                seen.add(aid)
                a = getatom(aid)
                if a.kind == 'elem' and a.args[0] == arr:
                    out.add(aid)
                for y in a.args:
                    go(y)
        elif isinstance(x, Bdd):
            if hid in x.deps():
                for v in x.support():
                    go(lit_key(v))
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
        elif isinstance(x, V):
            if hid in deps_of(x):
                for y in x._k:
                    go(y)
    go(v)
    return out


class AtomSubst(T.Subst):
    def __init__(self, m):
        T.Subst.__init__(self, {})
        self.am = m
        ks = frozenset()
        for aid in m:
            ks = ks | T.atom_deps(getatom(aid))
        self.keys = ks

    def atom(self, a):
        if a.id in self.am:
            return self.am[a.id]
        return T.Subst.atom(self, a)


def replace_atoms(v, m):
    if not m:
        return v
    return AtomSubst(m).any(v)


def arr_elty(arr):
    if isinstance(arr, (ArrSym, ArrOp)):
        return arr.elty
    if isinstance(arr, ArrFill):
        return like_ty(arr.v)
    if isinstance(arr, ArrList):
        return like_ty(arr.vals[0]) if arr.vals else 'f'
    if isinstance(arr, (ArrStore, ArrComp)):
        return like_ty(arr.val)
    if isinstance(arr, ArrShift):
        return arr_elty(arr.base)
    if isinstance(arr, ArrCopy):
        return arr_elty(arr.src)
    if isinstance(arr, ArrIte):
        return arr_elty(arr.a)
    return 'f'


def like_ty(v):
    return v if isinstance(v, V) else ('n',)


def summarize(I, base, body, ctx, where):
    S = Summ(I, base, ctx)
    mark0 = len(I.created)
    I.created.append(S.kid)
    S.created = frozenset([S.kid])
    S.created_all = S.created
    I.quiet += 1
    outs = None
    stable = False
    try:
        for rnd in range(14):
            mark = len(I.created)
            H = S.instantiate(S.k)
            hdr = H.fork()
            outs = body(H, 'k')
            S.created = frozenset(I.created[mark0:])
            S.created_all = S.created
            back = outs.get('back')
            if back is None or back.pc is FALSE:
                stable = True
                break
            changed = False
            for obj in list(base.mem):
                iv = base.mem[obj]
                hv = hdr.mem[obj]
                bv = back.mem.get(obj, UNDEF)
                if hv is bv:
                    continue
                changed |= S.compare(obj, (), iv, hv, bv, back)
            if changed:
                continue
            if S.verify(hdr, back):
                continue
            if S.upgrade(hdr, back):
                continue
            if find_invs(S, hdr, back):
                continue
            stable = True
            break
    finally:
        I.quiet -= 1
    if not stable:
        I.note('loop not stabilised: ' + where)
    # bounded trip count with several exits: unroll instead
    ub = upper_bound(S)
    exits = [t for t in outs if t != 'back']
    if ub is not None and ub.cval() is not None and ub.cval() <= 66 and stable and len(exits) >= 1:
        acc = {}
        cur = base.fork()
        for j in range(int(ub.cval()) + 2):
            o = body(cur, ('b', j))
            cur = o.pop('back', None)
            merge_outs(acc, o)
            if cur is None or cur.pc is FALSE:
                return acc
        I.note('bounded unrolling did not end: ' + where)
    # final pass, events recorded
    H = S.instantiate(S.k)
    info = {'k': S.k, 'where': where, 'K': None, 'ub': ub}
    I.loopstack.append(info)
    try:
        outs = body(H, 'k')
    finally:
        I.loopstack.pop()
    outs.pop('back', None)
    if not outs:
        return {}
    K = None
    if ub is not None and len(outs) == 1:
        s = next(iter(outs.values()))
        if s.ctx().holds(le(ub, S.k)):
            K = ub
    if K is None:
        K = sym('K%d' % ctx, USIZE, 0, KMAX)
        I.created.append(K.as_atom().id)
    info['K'] = K
    sub = T.Subst({S.kid: K})
    res = {}
    for t, s in outs.items():
        mem = {}
        for o, v in s.mem.items():
            if S.kid in deps_of(v):
                mem[o] = sub.any(v)
            else:
                mem[o] = v
        asm = tuple((sub.bdd(g), sub.bdd(c)) for g, c in s.assume)
        asm = tuple((g, c) for g, c in asm if c is not TRUE and g is not FALSE)
        n = IN.State(mem, sub.bdd(s.pc), asm)
        if n.pc is FALSE:
            continue
        res[t] = n
    return res


def find_invs(S, H, back):
    """linear invariants on k suggested by the facts holding on the back edge"""
    new = False
    lits, les, eqs, nes = back.ctx().lits()
    bctx = S.base.ctx()
    cands = []
    for p in les:
        if S.kid in p.deps() and not (p.deps() & S.created_all) - frozenset([S.kid]) and p.linear_in(S.kid) is not None:
            cands.append((p, T.subst(p, {S.kid: S.k - 1}), True))
    for p in nes:
        if S.kid in p.deps() and not (p.deps() & S.created_all) - frozenset([S.kid]) and p.linear_in(S.kid) is not None:
            for q in (p, -p):
                cands.append((q, q, False))
    for src, c, shifted in cands:
        b = le0(c)
        if b in S.invs or b is TRUE:
            continue
        if len(S.invs) > 8:
            break
        if H.ctx().holds(b):
            continue
        c0 = le0(T.subst(c, {S.kid: ZERO}))
        if not bctx.holds(c0):
            continue
        if not shifted:
            c1 = le0(T.subst(c, {S.kid: S.k + 1}))
            cc = Ctx(back.pc, back.assume + ((TRUE, b),))
            if not cc.holds(c1):
                continue
        S.invs.append(b)
        new = True
    return new


def upper_bound(S):
    for b in S.invs:
        # literal  k - u <= 0
        if b.v is None:
            continue
        k = lit_key(b.v)
        if k[0] != 'le':
            continue
        p = k[1] if b.hi is TRUE else 1 - k[1]
        lin = p.linear_in(S.kid)
        if lin is not None and lin[0].cval() == 1:
            return -lin[1]
    return None
