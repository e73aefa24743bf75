"""segments are cut at the maxima of the gradient of the smoothed differences"""
from matcher import *
from fractions import Fraction
from checks import c17

WIDTHS = (15, 15, 17)       # three moving averages that stand for a Gaussian with sigma 8


def run(ck):
    ck.rule = ('abstract interpretation: (1) the smoothing of n symbolic values is, value by value, the linear form of three moving averages of 15, 15 and 17 values mirrored at both ends; (2) match_fingerprints from the choice '
               'of the best alignment on, with symbolic words and given smoothed values: the parts that are scored are those between successive maxima of the absolute gradient above 0.15 that are not next to each other')
    ck.assumptions = ['real arithmetic up to 1e-9 relative', 'sizes and smoothed curves are enumerated']
    ck.guard('smoothing', smoothing, ck)
    for h in (.1, .14, .149, .151, .155, .16, .17, .19, .21, .3, 1, 3, -.1, -.149, -.151, -.17, -.3):
        for k in (2, 3):            # one maximum, two equal neighbours
            v = [5.0] * 3 + [5.0 + h * j for j in range(1, k + 1)] + [5.0 + h * k] * 3
            ck.guard('cuts/step %s x %d' % (h, k), cuts, ck, 'cuts/step %s x %d' % (h, k), 1 if h < 0 else 0, 0, v)
    for seed in range(22):
        r = random.Random(seed)
        n = r.choice((2, 3, 4, 5, 6, 8, 9, 10, 11, 12))
        steps = r.choice(((0, 1), (0, .1, .3, .5), (0, .1, .14, .15, .16, .2, .31), (0, 0, 0, 1), (-1, 0, 1), (.2, .3, .4)))
        v, x = [], 5.0
        for i in range(n):
            v.append(x)
            x += r.choice(steps) * r.choice((1, 1, 2))
        if r.random() < .3:
            v.reverse()
        while len(peaks(v)[0]) > 3:
            v.pop()
        o1, o2 = r.choice(((0, 0), (2, 0), (0, 3)))
        ck.guard('cuts/%d' % seed, cuts, ck, 'cuts/%d' % seed, o1, o2, v)


def mirror(k, n):
    k %= 2 * n
    return k if k < n else 2 * n - 1 - k


def smooth_forms(n):
    rows = [{i: Fraction(1)} for i in range(n)]
    for w in WIDTHS:
        new = []
        for i in range(n):
            d = {}
            for k in range(i - w // 2, i - w // 2 + w):
                for a, c in rows[mirror(k, n)].items():
                    d[a] = d.get(a, 0) + c / w
            new.append(d)
        rows = new
    return rows


def buffers(given, n):
    names = iter(('a', 'b'))
    return [Ref((next(names),), (), (ZERO, C(n))) if x is None else x for x in given]


def smoothing(ck):
    M = Model(ck)
    M.I.unroll = 400
    M.I.max_blocks = 4000000
    f = [i for i, x in enumerate(M.p.inst) if x['path'].endswith('::gaussian_filter') and x.get('body')]
    if len(f) != 1:
        ck.unk('smoothing', 'no function gaussian_filter')
        return
    # with the parameters match_fingerprints gives it
    R = Tail(ck, 3, 3, 3, lambda n: [0] * n)
    if R.given is None or any(isinstance(x, Poly) and x.cval() is None for x in R.given):
        ck.unk('smoothing', 'the parameters of the smoothing are not constants')
        return
    for n in list(range(1, 40)) + [47, 48, 49, 64, 90]:
        key = 'smoothing/%d' % n
        st = State()
        xs = [sym('x%d' % i, ('f', 64)) for i in range(n)]
        st.mem[('a',)] = SeqV(ArrList(xs), C(n))
        st.mem[('b',)] = SeqV(ArrFill(ZERO), C(n))
        s, r = M.run(f[0], buffers(R.given, n), st, ctx='g%d' % n)
        if s is None or not isinstance(s.mem.get(('b',)), SeqV):
            ck.unk(key, 'no result')
            continue
        out = s.mem[('b',)]
        want = smooth_forms(n)
        bad = 0
        for i in range(n):
            got = M.I.select(out.arr, C(i), s.ctx())
            if not isinstance(got, Poly):
                ck.unk(key, 'value %d is %s' % (i, type(got).__name__))
                bad = 1
                break
            w = sum((xs[a] * C(c) for a, c in want[i].items()), ZERO)
            if got == w or approx(got, w):
                continue
            bad = 1
            for q in range(8):
                rr = random.Random(q)
                ev = Ev({'x%d' % k: (1.0 if k == q * 5 % n else 0.0) if q < 6 else rr.random() * 9 for k in range(n)})
                try:
                    a, b = ev.val(got), ev.val(w)
                except (Unknown, Domain):
                    continue
                if abs(a - b) > 1e-6:
                    ck.bad(key, 'value %d of %d smoothed values is %.6f, expected %.6f for %s' % (i, n, a, b, str({k: v for k, v in ev.env.items() if v})[:120]))
                    break
            else:
                ck.unk(key, 'value %d' % i)
            break
        if not bad:
            ck.ok(key, '%d linear forms' % n)


def peaks(v):
    n = len(v)
    if n == 1:
        g = [0.0]
    else:
        g = [v[1] - v[0]] + [(v[i + 1] - v[i - 1]) / 2 for i in range(1, n - 1)] + [v[-1] - v[-2]]
    g = [abs(x) for x in g]
    out = []
    for i in range(1, n - 1):
        if g[i] > 0.15 and g[i] >= g[i - 1] and g[i] >= g[i + 1] and (not out or out[-1] + 1 < i):
            out.append(i)
    return out, g


def cuts(ck, key, o1, o2, v):
    v = [round(x * 1024) / 1024 for x in v]     # exact in binary
    ps, g = peaks(v)
    # stay clear of decisions that rounding could change
    if any(abs(x - .15) < 1e-9 for x in g) or any(0 < abs(x - y) < 1e-15 for x, y in zip(g, g[1:])):
        ck.ok(key, 'curve skipped: its cuts depend on rounding')
        return
    n = len(v)
    c17.one(ck, key, o1 + n, o2 + n, (o1 - o2) + o2 + n, ps, lambda m: v[:m] + [v[-1]] * (m - n))
