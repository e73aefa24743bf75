"""Abstract runs of match_fingerprints: the part before the best alignment is chosen and the part after it, with the Gaussian smoothing replaced by given values."""
import random
import time
from specs import *
import eng.natives as N

MF = P + 'fingerprint_matcher::match_fingerprints'
U = ('i', False, 32)
LIMIT = (1 << 19) - 2
START = {}


class Tail:
    """one run for given lengths, position of the best alignment and smoothed differences, under given facts"""

    def __init__(self, ck, l1, l2, idx, smooth, facts=(), words=None):
        M = self.M = Model(ck)
        I = M.I
        I.small_sorts = True
        self.split = None
        self.l1, self.l2, self.idx = l1, l2, idx
        self.cuts = {'first': 0, 'best': 0, 'smooth': 0}
        self.size = None
        self.first = self.given = None
        st, c = M.preset(2)
        st.mem[('p1',)] = SeqV(ArrSym('P', U32), C(l1))
        st.mem[('p2',)] = SeqV(ArrSym('Q', U32), C(l2))
        if words:
            st.mem[('p1',)], st.mem[('p2',)] = [SeqV(ArrList(w), C(len(w))) for w in words]
        self.words = words
        self.compared = None
        for f in facts:
            st.add_pc(f)

        def put(st, r, v):
            I.write_to(st, [(TRUE, r.obj, r.path, None, None)], v)

        def sorts(I, st, a, call, el):
            r = a[0]
            if not isinstance(r, Ref) or r.view is None:
                return NotImplemented
            v = I.deref_val(st, Ref(r.obj, r.path))
            if not isinstance(v, SeqV):
                return NotImplemented
            if words:
                return NotImplemented
            if self.cuts['best']:
                # a sort of the result: split on its conditions until its elements are known
                g = undecided(v) if self.cuts['smooth'] else None
                if g is not None:
                    self.split = g
                    return None, None
                return NotImplemented
            if el == 'u32':
                self.cuts['first'] += 1
                put(st, r, SeqV(ArrList([]), ZERO))
                return st, N.UNIT
            if el in ('(u32, usize)', '(usize, usize)'):
                self.cuts['best'] += 1
                put(st, r, SeqV(ArrList([Agg((sym('count', U32, 2, 1 << 20), C(idx)))]), ONE))
                return st, N.UNIT
            return NotImplemented

        def gauss(I, st, a, call):
            refs = [x for x in a if isinstance(x, Ref) and x.view is not None]
            if len(refs) != 2:
                raise IN.Unsupported('arguments of the smoothing')
            n = refs[0].view[1]
            if refs[0].view[0] != ZERO or refs[1].view[0] != ZERO or n.cval() is None or refs[1].view[1] != n:
                raise IN.Unsupported('slices given to the smoothing')
            self.cuts['smooth'] += 1
            self.given = [None if isinstance(x, Ref) and x.view is not None else x for x in a]
            self.size = int(n.cval())
            if words:
                x = I.deref_val(st, Ref(refs[0].obj, refs[0].path)).arr
                self.compared = [I.select(x, C(i), st.ctx()) for i in range(self.size)]
            if self.size:
                self.first = I.select(I.deref_val(st, Ref(refs[0].obj, refs[0].path)).arr, ZERO, st.ctx())
            put(st, refs[0], SeqV(ArrSym('J', ('f', 64)), n))
            put(st, refs[1], SeqV(ArrList([T.fconst(float(x)) for x in smooth(self.size)]), n))
            return st, N.UNIT
        for i, x in enumerate(M.p.inst):
            p = x['path']
            if p.split('::')[-1].startswith('sort') and ('slice' in p):
                b = x.get('body')
                el = (M.p.ty[b['locals'][1]]['name'] or '').replace('&mut [', '').rstrip(']') if b and len(b['locals']) > 1 else None
                I.intercept[i] = lambda I, st, a, call, el=el: sorts(I, st, a, call, el)
            elif p.endswith('::gaussian_filter'):
                I.intercept[i] = gauss
        self.st, self.r = M.run(MF, [Ref(('p1',), (), (ZERO, C(l1))), Ref(('p2',), (), (ZERO, C(l2))), Ref(('cfg',))], st)

    def place(self):
        """(offset1, offset2, size) of the comparison, read off the first value that is smoothed; the documented encoding of alignments when it cannot be"""
        d = self.idx - self.l2
        cand = [(max(d, 0), max(-d, 0))] + [(i, j) for i in range(self.l1) for j in range(self.l2) if not i or not j]
        if isinstance(self.first, Poly):
            for i, j in cand:
                if i < self.l1 and j < self.l2 and self.first == popcount(self.M, self, i, j):
                    return i, j, min(self.l1 - i, self.l2 - j)
        return geometry(self.l1, self.l2, self.idx)

    def usable(self):
        if self.cuts['best'] != 1 or self.cuts['smooth'] != 1:
            return 'the choice of the best alignment or the smoothing was not recognised %s' % self.cuts
        if self.split is not None:
            return None
        if self.st is None:
            return 'no path returns'
        if not isinstance(self.r, Enum):
            return 'result is %s' % type(self.r).__name__
        return None

    def segments(self):
        """SeqV of the Ok alternative when it is certain"""
        r = self.r
        if not isinstance(r, Enum):
            return None
        ok = [a for a in r.alts if a[0] == 0]
        if len(r.alts) != 1 or not ok or not isinstance(ok[0][3][0], SeqV):
            return None
        return ok[0][3][0]

    def fields(self, v):
        """(offset1, offset2, items, score) of a segment"""
        names = [n for n, _ in self.M.p.ty[v.ty]['variants'][0]['fields']]
        d = dict(zip(names, v.f))
        return tuple(d[k] for k in ('offset1', 'offset2', 'items_count', 'score'))

    def concrete(self):
        """list of fields when the structure is decided, else a guard to split on"""
        if self.split is not None:
            return None, self.split
        s = self.segments()
        if s is None:
            return None, None
        n = s.len.cval()
        if n is None:
            return None, undecided(s.len)
        out = []
        for i in range(int(n)):
            e = self.M.I.select(s.arr, C(i), self.st.ctx())
            if not isinstance(e, Agg):
                return None, undecided(s)
            f = self.fields(e)
            if any(not isinstance(x, Poly) or x.cval() is None for x in f[:3]):
                return None, undecided(f[:3]) or undecided(s)
            if not isinstance(f[3], Poly) or guards(f[3]) is not None:
                return None, undecided(f[3])
            out.append(tuple(int(x.cval()) for x in f[:3]) + (f[3],))
        return out, None

    def evaluate(self, ev):
        s = self.segments()
        if s is None:
            raise Unknown('result')
        out = []
        for v in range(int(ev.poly(s.len))):
            e = ev.at(s.arr, v)
            if not isinstance(e, Agg):
                raise Unknown('segment')
            f = self.fields(e)
            out.append(tuple(int(ev.val(x)) for x in f[:3]) + (float(ev.val(f[3])),))
        return out


def undecided(v):
    if isinstance(v, Poly):
        return guards(v)
    if isinstance(v, Bdd):
        return v if v is not TRUE and v is not FALSE else None
    if isinstance(v, (tuple, list)):
        for x in v:
            g = undecided(x)
            if g is not None:
                return g
        return None
    if isinstance(v, Agg):
        return undecided(v.f)
    if isinstance(v, SeqV):
        return undecided(v.len) or undecided(v.arr)
    if isinstance(v, Gated):
        return undecided(tuple(v.alts))
    if isinstance(v, Arr):
        return undecided(v._k)
    return None


def explore(ck, key, mk, visit, budget=400):
    """split the run on every undecided condition of its result; visit(run, segments, facts) may return further conditions to split on"""
    todo = [()]
    leaves = 0
    while todo:
        budget -= 1
        START.setdefault('t', time.time())
        if budget < 0 or time.time() - START['t'] > 420:
            ck.unk(key, 'more cases than the budget allows')
            return leaves
        facts = todo.pop()
        run = mk(facts)
        if run.split is None and run.st is not None and run.st.pc is FALSE or any(f is FALSE for f in facts):
            continue
        why = run.usable()
        if why:
            ck.unk(key, why)
            return leaves
        segs, g = run.concrete()
        if segs is None and g is None:
            ck.unk(key, 'the result is not a list of segments with decidable shape')
            return leaves
        if segs is not None:
            g = visit(run, segs, facts)
            if g is None:
                leaves += 1
                continue
        if run.st is not None and run.st.ctx().simplify(g) in (TRUE, FALSE):
            ck.unk(key, 'a condition of the result is not decided by itself')
            return leaves
        todo.append(facts + (g,))
        todo.append(facts + (bnot(g),))
    return leaves


def ramp(peaks):
    """smoothed differences whose gradient has isolated maxima exactly at the given positions"""
    def f(n):
        return [sum(0 if i < p else 5 if i == p else 10 for p in peaks) for i in range(n)]
    return f


def popcount(M, run, i, j):
    st = run.st or State()
    if run.words:
        a, b = run.words[0][i], run.words[1][j]
    else:
        a = M.I.select(ArrSym('P', U32), C(i), st.ctx())
        b = M.I.select(ArrSym('Q', U32), C(j), st.ctx())
    return N.ctpop(M.I.bitop(st, 'BitXor', a, b, U32), U32)


def envs(l1, l2, o1, o2, parts, seed=0):
    """words whose mean differences sit around the thresholds, part by part"""
    out = []
    for k in range(40):
        def mk(k=k):
            r = random.Random('%s/%s/%s/%s/%s' % (l1, l2, o1, k, seed))
            p = [r.getrandbits(32) for _ in range(l1)]
            q = [r.getrandbits(32) for _ in range(l2)]
            base = r.choice((0, 2, 5, 9.5, 9.8, 10, 10.1, 10.4, 12, 15))
            for b, e in parts:
                n = e - b
                if r.random() < .3:
                    base = r.choice((0, 3, 9, 9.9, 10, 11, 16, 31))
                t = max(0, min(32 * n, round((base + r.choice((0, 0, .1, .5, .6, .65, .7, .75, .8, -.1, -.6, -.7, -.75, 1.5))) * n)))
                c = [t // n + (1 if i < t % n else 0) for i in range(n)] if n else []
                r.shuffle(c)
                for i, x in enumerate(c):
                    m = sum(1 << z for z in r.sample(range(32), x))
                    q[o2 + b + i] = p[o1 + b + i] ^ m
            ev = Ev({'count': 5})
            ev.arr['P'] = lambda i, proj, p=p: p[int(i)] if 0 <= i < len(p) else 0
            ev.arr['Q'] = lambda i, proj, q=q: q[int(i)] if 0 <= i < len(q) else 0
            ev.arr['J'] = lambda i, proj: 77.25 + i
            ev.words = (p, q)
            return ev
        out.append(mk)
    return out


def geometry(l1, l2, idx):
    d = idx - l2
    o1, o2 = max(d, 0), max(-d, 0)
    return o1, o2, min(l1 - o1, l2 - o2)
