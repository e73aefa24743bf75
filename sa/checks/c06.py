"""the word is the Gray-coded sequence of the classifier decisions"""
from calc import *


def run(ck):
    ck.rule = ('abstract interpretation of the pipeline with symbolic chroma rows at the last stage and classifiers with symbolic ordered thresholds: every word of the fingerprint equals, as a closed '
               'form, the Gray codes of the threshold counts, two bits each, first classifier most significant')
    ck.assumptions = ['real arithmetic; thresholds ascending', 'the filter value of a one-row rectangle is ln(1 + x)']
    for n in (1, 2, 3, 7, 15, 16):
        ck.guard('classifiers%d' % n, word, ck, 'classifiers%d' % n, [(0, (5 * j) % 12, 1, 1) for j in range(n)], 2)
    ck.guard('mixed', word, ck, 'mixed', [(j % 6, j % 4, 1 + j % 5, 1 + (3 * j) % 5) for j in range(16)], 6)
    ck.guard('tall', word, ck, 'tall', [(k, 0, 12, 4) for k in range(6)] + [(0, 4, 3, 15)], 15)
    ck.guard('restarted', word, ck, 'restarted', [(0, (7 * j) % 12, 1, 1) for j in range(5)], [2, 3])
    ck.guard('concrete', concrete, ck)


def thresholds(j):
    return tuple(sym('t%d_%d' % (j, i), ('f', 64)) for i in range(3))


def symrow(M, k):
    return [M.I.select(ArrSym('X%d' % k, M.tid('f64')), C(c), None) for c in range(12)]


def code(v, t):
    """Gray code of the number of thresholds not above v, thresholds ascending"""
    return ite(T.flt0(v - t[1]), ite(T.flt0(v - t[0]), C(0), C(1)), ite(T.flt0(v - t[2]), C(3), C(2)))


def ordered(t):
    return [(TRUE, T.fle0(t[0] - t[1])), (TRUE, T.fle0(t[1] - t[2]))]


def spec_word(geo, ts, rows, x):
    w = ZERO
    n = len(geo)
    for j, ((kind, y, h, wd), t) in enumerate(zip(geo, ts)):
        a, b = response(kind, rows, x, y, h, wd)
        w = w + code(value(a, b), t) * (1 << (2 * (n - 1 - j)))
    return w


def rnd_envs(nrows, nth, first=0):
    envs = []
    for seed in range(24):
        def mk(seed=seed):
            r = random.Random(seed)
            e = Ev({}, seed=seed)
            for k in range(first, nrows):
                e.arr['X%d' % k] = lambda i, proj, k=k: random.Random('%s/%s/%s' % (seed, k, i)).choice((0.0, 0.1, 0.5, 1.0, 0.83, 0.02)) * (1 if seed % 2 else random.Random('%s-%s-%s' % (seed, k, i)).random())
            for j in range(nth):
                v = sorted(random.Random('%s:%s' % (seed, j)).uniform(-0.6, 0.9) for i in range(3))
                for i in range(3):
                    e.env['t%d_%d' % (j, i)] = v[i]
            return e
        envs.append(mk)
    # loud rows (components of at most 1) and thresholds over the whole range of values
    for seed in range(16):
        def loud(seed=seed):
            e = Ev({}, seed=seed)
            part = seed % 4
            for k in range(first, nrows):
                e.arr['X%d' % k] = lambda i, proj, k=k: 1.0 if part == 0 or part == 1 and (i // 2) % 2 or part == 2 and k % 2 or part == 3 and random.Random('%s~%s~%s' % (seed, k, i)).random() < 0.5 else 0.0
            for j in range(nth):
                v = sorted(random.Random('%s~%s' % (seed, j)).uniform(-3, 3) for i in range(3))
                for i in range(3):
                    e.env['t%d_%d' % (j, i)] = v[i]
            return e
        envs.append(loud)
    # filter values exactly on a threshold: silence has value ln(1) = 0
    for z in ((0.0, 0.5, 1.0), (-1.0, 0.0, 1.0), (-1.0, -0.5, 0.0)):
        def tie(z=z):
            e = Ev({}, seed=0)
            for k in range(first, nrows):
                e.arr['X%d' % k] = lambda i, proj: 0.0
            for j in range(nth):
                for i in range(3):
                    e.env['t%d_%d' % (j, i)] = z[i]
            return e
        envs.append(tie)
    return envs


def word(ck, key, geo, nrows):
    ts = [thresholds(j) for j in range(len(geo))]
    R = Rows(ck, [g + (t,) for g, t in zip(geo, ts)], nrows, symrow)
    first = 0 if isinstance(nrows, int) else nrows[0]
    last = nrows if isinstance(nrows, int) else nrows[-1]
    maxw = max(g[3] for g in geo)
    want = max(0, last - maxw + 1)
    if R.count is not None:
        r = witness(R.count, C(want), rnd_envs(first + last, len(geo), first), TRUE, tuple(a for t in ts for a in ordered(t)))
        verdict(ck, key + '/count', r, '%d words for %d rows and a widest filter of %d' % (want, last, maxw))
        return
    if not R.ok:
        ck.unk(key, R.why)
        return
    M = R.M
    if len(R.words) != want:
        ck.bad(key + '/count', '%d words for %d rows and a widest filter of %d' % (len(R.words), last, maxw))
        return
    rows = [symrow(M, first + k) for k in range(last)]
    asm = [a for t in ts for a in ordered(t)]
    for i, w in enumerate(R.words):
        s = spec_word(geo, ts, rows, i)
        r = prove_sum(w, s, TRUE, tuple(asm) + tuple(R.st.assume))
        if r is not True:
            r = witness(w, s, rnd_envs(first + last, len(geo), first), TRUE, tuple(asm))
            if r and not isinstance(r[2], str):
                r = (r[0], 'classifier bits differing: %s' % [j for j in range(len(geo)) if (int(r[2]) ^ int(r[3])) >> 2 * (len(geo) - 1 - j) & 3], r[2], r[3])
        verdict(ck, '%s/word%d' % (key, i), r, 'Gray codes of the decisions, first classifier in the highest bits')
    ck.scope['words compared'] = ck.scope.get('words compared', 0) + len(R.words)


def concrete(ck):
    """values between the thresholds"""
    t = (0.25, 0.5, 0.75)
    vals = [-0.0, 0.1, 0.3, 0.6, 0.9, 2.0]
    xs = [math.exp(v) - 1 for v in vals]
    geo = [(0, 0, 1, 1)]

    def row(M, k):
        return [T.fconst(xs[k])] + [T.fconst(0.0)] * 11
    R = Rows(ck, [geo[0] + (t,)], len(xs), row)
    if not R.ok:
        ck.unk('concrete', R.why)
        return
    got = [int(w.cval()) if w.is_const() else None for w in R.words]
    want = [GRAY[sum(1 for e in t if e <= math.log1p(x))] for x in xs]
    if None in got:
        ck.unk('concrete', 'not constant')
    else:
        ck.decide('concrete', got == want, 'values %s with thresholds %s give %s, expected %s' % (vals, t, got, want))
