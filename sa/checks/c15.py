"""matching rejects fingerprints it cannot index and otherwise never fails"""
from matcher import *


STANDARD = []


def run(ck):
    del STANDARD[:]
    ck.rule = ('abstract interpretation of match_fingerprints: (1) for symbolic lengths up to the first sort, the call must return FingerprintTooLong exactly when a length is at least 2^19-2, naming the first such argument; '
               '(2) for short fingerprints with arbitrary words and the sort as an arbitrary rearrangement, every runtime check up to the choice of the alignment must be discharged and the alignments must be inside the histogram; '
               '(3) from any alignment on the result must be Ok and no runtime check may fail; (4) empty fingerprints give an empty result; (5) the Gaussian smoothing discharges its checks for every size up to a bound')
    ck.assumptions = ['sorting rearranges', 'lengths are enumerated in parts 2 to 5']
    ck.guard('limits', limits, ck)
    for a, b in ((0, 0), (0, 1), (1, 0), (0, 3), (3, 0)):
        ck.guard('empty/%dx%d' % (a, b), front, ck, a, b)
    for a, b in ((1, 1), (1, 2), (2, 1)) + ((2, 2), (3, 1), (1, 3)):
        ck.guard('front/%dx%d' % (a, b), front, ck, a, b)
    if not STANDARD:
        ck.unk('tail', 'the numbering of alignments is not the one the second part was written for')
    for l1, l2 in ((1, 1), (1, 4), (4, 1), (3, 5), (5, 3), (6, 6)) if STANDARD else ():
        for idx in range(1, l1 + l2):
            for name, sm in (('flat', lambda n: [0] * n), ('zigzag', lambda n: [(i * i) % 3 * 2.0 for i in range(n)])):
                k = 'tail/%dx%d/%d/%s' % (l1, l2, idx, name)
                ck.guard(k, tail, ck, k, l1, l2, idx, sm)
    ck.guard('smoothing', smoothing, ck)


def sort_instances(M):
    out = []
    for i, x in enumerate(M.p.inst):
        if x['path'].split('::')[-1].startswith('sort') and 'slice' in x['path']:
            b = x.get('body')
            out.append((i, (M.p.ty[b['locals'][1]]['name'] or '').replace('&mut [', '').rstrip(']') if b and len(b['locals']) > 1 else None))
    return out


def limits(ck):
    M = Model(ck)
    I = M.I
    reached = []

    def stop(I, st, a, call):
        reached.append(st.pc)
        return None, None
    for i, el in sort_instances(M):
        I.intercept[i] = stop
    n1, n2 = sym('n1', USIZE, 0, 1 << 40), sym('n2', USIZE, 0, 1 << 40)
    st, c = M.preset(2)
    st.mem[('p1',)] = SeqV(ArrSym('P', U32), n1)
    st.mem[('p2',)] = SeqV(ArrSym('Q', U32), n2)
    s, r = M.run(MF, [Ref(('p1',), (), (ZERO, n1)), Ref(('p2',), (), (ZERO, n2)), Ref(('cfg',))], st)
    vals = (0, 1, 1000, (1 << 18) - 1, 1 << 18, 300000, LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, LIMIT + 3, LIMIT + 4, 1 << 19, 1 << 20, 3 << 19, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 33)

    def mk(a, b):
        def f():
            ev = Ev({'n1': a, 'n2': b})
            ev.arr['P'] = ev.arr['Q'] = lambda i, proj: 7
            return ev
        return f
    es = [mk(a, b) for a in vals for b in vals]
    n = panic_events(ck, 'limits', M, 0, es)
    if n:
        ck.unk('limits/checks', '%d runtime checks not discharged' % n)
    if not reached:
        ck.unk('limits/sort', 'the first sort is not reached')
        return
    t1, t2 = le(C(LIMIT), n1), le(C(LIMIT), n2)
    long = bor(t1, t2)
    pc = s.pc if s is not None else FALSE
    index = None
    if s is not None:
        if not isinstance(r, Enum):
            ck.unk('limits', type(r).__name__)
            return
        err = [a for a in r.alts if a[0] == 1]
        okg = bor(*[a[2] for a in r.alts if a[0] != 1]) if len(r.alts) > len(err) else FALSE
        e = err[0][3][0] if err else None
        if e is not None and isinstance(e, Enum) and len(e.alts) == 1 and len(e.alts[0][3]) == 1:
            index = e.alts[0][3][0]
        if okg is not FALSE and s.ctx().simplify(okg) is not FALSE:
            ck.unk('limits/early', 'returns Ok before the first sort in some cases')
    for f in es:
        ev = f()
        a, b = ev.env['n1'], ev.env['n2']
        want = 0 if a >= LIMIT else 1 if b >= LIMIT else None
        try:
            ret = ev.bdd(pc)
            if ret and isinstance(r, Enum):
                g = [x for x in r.alts if ev.bdd(x[2])]
                got = ('Err', int(ev.val(index))) if g and g[0][0] == 1 and index is not None else ('Ok',) if g and g[0][0] == 0 else ('?',)
            else:
                got = ('Ok',)
                if not any(ev.bdd(q) for q in reached):
                    continue
        except (Unknown, Domain):
            continue
        if got != (('Ok',) if want is None else ('Err', want)) and got != ('?',):
            ck.bad('limits', 'fingerprints of %d and %d words: %s, expected %s' % (a, b, got, 'to be matched' if want is None else 'FingerprintTooLong { index: %d }' % want))
            return
    if s is None:
        ck.bad('limits', 'no length is refused')
        return
    ctx = s.ctx()
    from eng.lp import Ctx
    if s.ctx().simplify(long) is TRUE:
        ck.ok('limits/only', 'refused only when a length is at least 2^19-2')
    else:
        ck.unk('limits/only', repr(pc)[:200])
    z = State()
    z.add_pc(long)
    if all(z.ctx().simplify(q) is FALSE for q in reached):
        ck.ok('limits/all', 'no work on a fingerprint of 2^19-2 words or more')
    else:
        ck.unk('limits/all', 'the first sort may be reached with a long fingerprint')
    want = ite(t1, ZERO, ONE)
    if index is not None and (index == want or prove_eq(index, want, pc)):
        ck.ok('limits/index', 'names the first argument that is too long')
    else:
        ck.unk('limits/index', repr(index)[:120])


def front(ck, l1, l2):
    key = ('front/%dx%d' if l1 and l2 else 'empty/%dx%d') % (l1, l2)
    M = Model(ck)
    I = M.I
    perms, best = [], []

    def sorting(I, st, a, call, el):
        r = a[0]
        if not isinstance(r, Ref) or r.view is None:
            return NotImplemented
        n = r.view[1].cval()
        v = I.deref_val(st, Ref(r.obj, r.path))
        if (el or '').startswith('('):
            best.append((st, v))
            return None, None
        if n is None or n > 6:
            return NotImplemented
        n = int(n)
        old = [I.select(v.arr, r.view[0] + j, st.ctx()) for j in range(n)]
        if n < 2:
            return st, N.UNIT
        if not all(isinstance(x, Poly) for x in old) or r.view[0] != ZERO or r.view[1] != v.len:
            return NotImplemented
        ps = [sym('p%d_%d' % (len(perms), k), USIZE, 0, n - 1) for k in range(n)]
        perms.append((ps, old))
        new = []
        for k in range(n):
            x = old[n - 1]
            for j in range(n - 2, -1, -1):
                x = ite(eq(ps[k], C(j)), old[j], x)
            new.append(x)
        I.write_to(st, [(TRUE, r.obj, r.path, None, None)], SeqV(ArrList(new), v.len))
        return st, N.UNIT
    if l1 and l2:
        for i, el in sort_instances(M):
            I.intercept[i] = lambda I, st, a, call, el=el: sorting(I, st, a, call, el)
    else:
        for i, el in sort_instances(M):
            if not (el or '').startswith('('):
                I.intercept[i] = lambda I, st, a, call, el=el: sorting(I, st, a, call, el)
    st, c = M.preset(2)
    st.mem[('p1',)] = SeqV(ArrSym('P', U32), C(l1))
    st.mem[('p2',)] = SeqV(ArrSym('Q', U32), C(l2))
    s, r = M.run(MF, [Ref(('p1',), (), (ZERO, C(l1))), Ref(('p2',), (), (ZERO, C(l2))), Ref(('cfg',))], st)

    def env(k, words1=None, words2=None):
        def f():
            rr = random.Random('%s/%d/%d' % (k, l1, l2))
            pool = [rr.getrandbits(32) for _ in range(1 + k % 3)]
            p, q = [rr.choice(pool) for _ in range(l1)], [rr.choice(pool) for _ in range(l2)]
            if words1 is not None:
                p, q = words1, words2
            ev = Ev({})
            ev.arr['P'] = lambda i, proj: p[int(i)] if 0 <= i < l1 else 0
            ev.arr['Q'] = lambda i, proj: q[int(i)] if 0 <= i < l2 else 0
            for ps, old in perms:
                try:
                    vals = [int(ev.val(x)) for x in old]
                except (Unknown, Domain):
                    continue
                for k2, j in enumerate(sorted(range(len(vals)), key=lambda j: vals[j])):
                    ev.env['p%d_%d' % (perms.index((ps, old)), k2)] = j
            return ev
        return f
    es = [env(k) for k in range(24)]
    n = panic_events(ck, key, M, 0, es)
    if n:
        ck.unk(key + '/checks', '%d runtime checks not discharged' % n)
    if not (l1 and l2):
        if s is None:
            ck.bad(key + '/returns', 'never returns')
            return
        if isinstance(r, Enum) and len(r.alts) == 1 and r.alts[0][0] == 0 and isinstance(r.alts[0][3][0], SeqV):
            m = r.alts[0][3][0].len
            if m == ZERO:
                ck.ok(key, 'Ok and empty')
                return
            for f in es:
                ev = f()
                try:
                    if ev.bdd(s.pc) and ev.val(m) > 0:
                        ck.bad(key, '%d segments for fingerprints of %d and %d words' % (ev.val(m), l1, l2))
                        return
                except (Unknown, Domain):
                    continue
            ck.unk(key, 'number of segments %s' % repr(m)[:80])
        elif isinstance(r, Enum) and len(r.alts) == 1 and r.alts[0][0] == 1:
            ck.bad(key, 'Err for fingerprints of %d and %d words' % (l1, l2))
        else:
            ck.unk(key, 'result %s' % repr(r)[:80])
        return
    if s is not None and isinstance(r, Enum) and s.ctx().simplify(bor(*([x[2] for x in r.alts if x[0] == 1] or [FALSE]))) is not FALSE:
        ck.unk(key, 'may return Err')
    if not best:
        if s is None:
            ck.bad(key + '/returns', 'never returns')
        else:
            ck.unk(key, 'the choice of the best alignment was not recognised')
        return
    if l1 == l2 == 2:
        # both words of both fingerprints agree: the only alignment is the diagonal 0, numbered len2
        for f in (env(0, ((1 << 31) + 5, 77), ((1 << 31) + 5, 77)), env(0, (5 << 20, 9 << 20), (5 << 20, 9 << 20))):
            ev = f()
            for st, v in best:
                try:
                    if ev.bdd(st.pc) and ev.val(v.len) == 1 and ev.val(ev.at(v.arr, 0).f[1]) == l2:
                        STANDARD.append(1)
                except (Unknown, Domain):
                    continue
    for st, v in best:
        bound = l1 + l2
        m = v.len
        hi = T.interval(m)[1]
        hi = hi if hi is not None and hi <= bound else bound
        if hi is None or st.ctx().simplify(le(m, C(bound))) is not TRUE:
            ck.unk(key + '/candidates', 'number of alignments %s' % repr(m)[:60])
            continue
        good = True
        for k in range(int(hi)):
            x = I.select(v.arr, C(k), st.ctx())
            if not isinstance(x, Agg) or len(x.f) != 2 or not isinstance(x.f[1], Poly):
                if isinstance(x, (Agg, Gated)) or x is UNDEF:
                    continue
                good = False
                ck.unk(key + '/candidate %d' % k, type(x).__name__)
                continue
            lo, h = T.interval(x.f[1])
            z = st.fork()
            z.add_pc(lt(C(k), m))
            if not (lo is not None and lo >= 0 and h is not None and h < bound) and z.ctx().simplify(band(le(ZERO, x.f[1]), lt(x.f[1], C(bound)))) is not TRUE:
                good = False
                ck.unk(key + '/candidate %d' % k, 'alignment %s' % repr(x.f[1])[:80])
        if good:
            ck.ok(key, 'alignments stay inside the histogram; every check before is discharged')


def tail(ck, key, l1, l2, idx, sm):
    R = Tail(ck, l1, l2, idx, sm)
    why = None if R.cuts['best'] == 1 and R.cuts['smooth'] == 1 else 'the choice of the best alignment or the smoothing was not recognised %s' % R.cuts
    if why:
        ck.unk(key, why)
        return
    o1, o2, size = geometry(l1, l2, idx)
    half = max(size, 0) // 2
    n = panic_events(ck, key, R.M, 0, envs(l1, l2, o1, o2, [(0, half), (half, size)] if half else [(0, size)] if size > 0 else [])[:12])
    if R.split is not None:
        ck.unk(key, 'the result is sorted')
    elif R.st is None:
        ck.bad(key + '/returns', 'never returns')
    elif n:
        ck.unk(key, '%d runtime checks not discharged' % n)
    elif isinstance(R.r, Enum) and [x[0] for x in R.r.alts] == [0]:
        ck.ok(key, 'Ok')
    elif isinstance(R.r, Enum) and [x[0] for x in R.r.alts] == [1]:
        ck.bad(key, 'Err')
    else:
        ck.unk(key, 'may return Err')


def smoothing(ck):
    M = Model(ck)
    M.I.unroll = 400
    M.I.max_blocks = 4000000
    f = [i for i, x in enumerate(M.p.inst) if x['path'].endswith('::gaussian_filter') and x.get('body')]
    if len(f) != 1:
        ck.unk('smoothing', 'no function gaussian_filter')
        return
    for n in list(range(1, 36)) + [50, 64]:
        st = State()
        st.mem[('a',)] = SeqV(ArrSym('A', ('f', 64)), C(n))
        st.mem[('b',)] = SeqV(ArrFill(ZERO), C(n))
        since = len(M.I.events)
        s, r = M.run(f[0], [Ref(('a',), (), (ZERO, C(n))), Ref(('b',), (), (ZERO, C(n))), T.fconst(8.0), C(3)], st, ctx='g%d' % n)
        m = panic_events(ck, 'smoothing/%d' % n, M, since, [lambda: rnd()])
        if s is None:
            ck.bad('smoothing/%d/returns' % n, 'the smoothing of %d values never returns' % n)
        elif m:
            ck.unk('smoothing/%d' % n, '%d runtime checks not discharged' % m)
        else:
            ck.ok('smoothing/%d' % n, 'every check discharged')


def rnd():
    ev = Ev({})
    ev.arr['A'] = lambda i, proj: float(int(i) * 7 % 5)
    return ev
