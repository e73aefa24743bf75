"""the last stage of the pipeline (image, filters, quantisation, word) on given chroma rows"""
import math
from specs import *
from fpmodel import *


def chain(log):
    out = []
    for r in log:
        if r['n'] == 12 and r['stage'] not in out:
            out.append(r['stage'])
    return out


def walk(M, v, path=()):
    if isinstance(v, Agg) and v.ty is not None and M.p.ty[v.ty]['k'] == 'adt':
        for (n, ft), x in zip(M.p.ty[v.ty]['variants'][0]['fields'], v.f):
            yield from walk(M, x, path + ((n, ft),))
    else:
        yield path, v


def classifier(M, tmpl, kind, y, h, w, t):
    """a classifier value like the template with other parameters; t = three terms or numbers. None when the layout is not understood"""
    leaves = list(walk(M, tmpl))
    fl = sorted((float(T.fval(x)), p) for p, x in leaves if isinstance(x, Poly) and M.p.ty[p[-1][1]]['name'] == 'f64' and T.fval(x) is not None)
    if len(fl) != 3:
        return None
    new = {p: (T.fconst(e) if isinstance(e, (int, float)) else e) for (v, p), e in zip(fl, t)}
    want = {'y': y, 'height': h, 'width': w}
    for p, x in leaves:
        if isinstance(x, Enum):
            vs = M.p.ty[p[-1][1]]['variants']
            if len(vs) != 6 or any(v['fields'] for v in vs):
                return None
            new[p] = Enum([(kind, vs[kind]['discr'], TRUE, ())], p[-1][1])
        elif p not in new:
            if p[-1][0] not in want:
                return None
            new[p] = C(want.pop(p[-1][0]))
    if want:
        return None

    def build(v, path=()):
        if path in new:
            return new[path]
        return Agg(tuple(build(x, path + ((n, ft),)) for (n, ft), x in zip(M.p.ty[v.ty]['variants'][0]['fields'], v.f)), v.ty)
    return build(tmpl)


def template(M):
    st, c = M.preset(2)
    cls = [v for v in M.fields(c).values() if isinstance(v, SeqV) and isinstance(v.arr, ArrList) and v.arr.vals and isinstance(v.arr.vals[0], Agg)]
    if len(cls) != 1:
        raise lib.Anchor('classifier list of a preset')
    return cls[0].arr.vals


class Rows:
    """pipeline whose last stage receives the rows row(k) instead of what was computed; words = the fingerprint afterwards"""

    def __init__(self, ck, params, nrows, row, tables=None, restart=None):
        """params: list of (kind, y, h, w, (t0, t1, t2)); row(M, k) -> list of 12 terms"""
        self.M = M = fft_boundary(Model(ck), zero=True)
        self.ok = False
        self.why = ''
        self.count = None           # the number of words when it is not constant
        tm = template(M)
        cl = tm if params is None else [classifier(M, tm[0], *p) for p in params]
        if any(c is None for c in cl):
            self.why = 'layout of Classifier not understood'
            return
        self.log = log = []
        self.k = 0
        self.base = 0

        def replace(r, st):
            c = chain(log)
            if r['n'] == 12 and len(c) >= 3 and r['stage'] == c[2]:
                k = self.k
                self.k += 1
                st.mem[('row', k)] = SeqV(ArrList(row(M, k)), C(12))
                return Ref(('row', k), (), (ZERO, C(12)))
            return None
        log2 = stages(M, replace=replace)
        self.log = log = log2
        M.I.unroll = 2000
        M.I.max_blocks = 4000000
        st, c = small_config(M, None, frame=8, overlap=4, ncoef=1, coefs=[T.fconst(1.0)])
        st, c = M.run(CFGP + 'with_classifiers', [c, SeqV(ArrList(cl), C(len(cl)))], st)
        st.mem[('cfg',)] = c
        st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
        st.mem[('fp',)] = f
        self.st = st
        for n in ([nrows] if isinstance(nrows, int) else nrows):
            self.stream(n)
            if self.st is None:
                self.why = 'the pipeline never returns'
                return
        if len(chain(log)) != 3 or any(r['quiet'] for r in log):
            self.why = 'stages not recognised'
            return
        if self.k != sum([nrows] if isinstance(nrows, int) else nrows):
            self.why = '%d rows reached the last stage' % self.k
            return
        self.st, r = M.fingerprint(self.st)
        s = M.seq(self.st, r)
        if s is None or not s.len.is_const():
            self.why = 'number of words not constant'
            self.count = None if s is None else s.len
            return
        self.words = [M.I.select(s.arr, C(i), self.st.ctx()) for i in range(int(s.len.cval()))]
        self.ok = True

    def stream(self, n):
        M = self.M
        st, r = M.start(self.st, C(11025), C(1))
        m = 8 + 4 * (n - 1)
        st.mem[('data', 'A')] = SeqV(ArrSym('A', M.tid('i16')), C(m))
        st = M.consume(st, Ref(('data', 'A'), (), (ZERO, C(m))))
        self.st = M.finish(st) if st else None


def rect(rows, x1, y1, x2, y2):
    t = ZERO
    xs = [rows[x][y] for x in range(x1, x2) for y in range(y1, y2)]
    while len(xs) > 1:
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0] if xs else t


def response(kind, rows, x, y, h, w):
    """(a, b) of the filter's two rectangle sets on the given rows"""
    R = lambda x1, y1, x2, y2: rect(rows, x + x1, y + y1, x + x2, y + y2)
    if kind == 0:
        return R(0, 0, w, h), ZERO
    if kind == 1:
        return R(0, h // 2, w, h), R(0, 0, w, h // 2)
    if kind == 2:
        return R(w // 2, 0, w, h), R(0, 0, w // 2, h)
    if kind == 3:
        return R(0, h // 2, w // 2, h) + R(w // 2, 0, w, h // 2), R(0, 0, w // 2, h // 2) + R(w // 2, h // 2, w, h)
    if kind == 4:
        t = h // 3
        return R(0, t, w, 2 * t), R(0, 0, w, t) + R(0, 2 * t, w, h)
    t = w // 3
    return R(t, 0, 2 * t, h), R(0, 0, t, h) + R(2 * t, 0, w, h)


def value(a, b):
    q = T.fdiv(a + 1, b + 1)
    c = T.fval(q)
    if c is not None and c > 0:
        return T.fconst(math.log(c))
    return T.op('ln', (q,), ('f', 64), None, None)


GRAY = (0, 1, 3, 2)


def litset(p, seen=None, out=None):
    """decision variables of all conditions inside a term"""
    out = set() if out is None else out
    for a in all_ites(p):
        for v in a.args[0].support():
            out.add(v)
    return out


def prove_sum(a, b, pc, assume):
    """like prove_eq, but terms whose conditions have no variable in common are compared separately (they must cancel within each group)"""
    d = a - b
    groups = []
    for m, c in d.t:
        p = T.Poly.make({m: c})
        s = litset(p)
        hit = [g for g in groups if g[0] & s]
        for g in hit:
            groups.remove(g)
            s = s | g[0]
            p = p + g[1]
        groups.append((s, p))
    for s, p in groups:
        if prove_eq(p, ZERO, pc, assume) is not True:
            return None
    return True
