"""scores are mean bit differences; good segments are kept, similar neighbours merged"""
from matcher import *

THRESHOLD, DIFFERENCE = 10.0, 0.7


def run(ck):
    ck.rule = ('abstract interpretation of match_fingerprints from the choice of the best alignment on, with symbolic words and smoothed differences that have maxima of the gradient at prescribed places; the result is split on every '
               'condition, and in every case the segments must be those the rule prescribes: score = mean popcount of the exclusive or, kept below 10, merged with the last one when consecutive and less than 0.7 apart, '
               'with the length-weighted mean as score')
    ck.assumptions = ['the Gaussian smoothing only writes the two buffers it is given', 'lengths, alignments and places of the maxima are enumerated', 'floating point operations are compared as real operations']
    for l1, l2, idx, peaks in ((1, 1, 1, ()), (3, 3, 3, ()), (7, 4, 6, ()), (4, 9, 7, ()), (10, 10, 10, (4,)), (12, 16, 14, (3,)), (17, 11, 13, (6,)), (14, 14, 14, (3, 9)), (20, 15, 18, (4, 8)), (15, 19, 16, (2, 6)),
                               (20, 20, 20, (3, 8, 14)), (16, 16, 16, (2, 5, 11)), (45, 44, 44, (20,)), (42, 45, 47, (18, 33))):
        k = '%dx%d/%d/%s' % (l1, l2, idx, ','.join(map(str, peaks)) or 'none')
        ck.guard(k, one, ck, k, l1, l2, idx, peaks)


def reference(parts, counts, o1, o2):
    out = []
    for b, e in parts:
        s = sum(counts[b:e]) / (e - b)
        if s < THRESHOLD:
            if out and abs(out[-1][3] - s) < DIFFERENCE and out[-1][0] + out[-1][2] == o1 + b:
                a, c, n, t = out[-1]
                out[-1] = (a, c, n + e - b, (t * n + s * (e - b)) / (n + e - b))
            else:
                out.append((o1 + b, o2 + b, e - b, s))
    return out


def one(ck, key, l1, l2, idx, peaks, curve=None):
    curve = curve or ramp(peaks)
    base = Tail(ck, l1, l2, idx, curve)
    why = base.usable()
    if why:
        ck.unk(key, why)
        return
    o1, o2, size = base.place()
    cutp = [0] + [p for p in peaks if 0 < p < size - 1] + [size]
    parts = list(zip(cutp, cutp[1:]))
    if base.size != size:
        ck.unk(key, 'smoothing of %s values, expected %d' % (base.size, size))
    for mk in envs(l1, l2, o1, o2, parts) + envs(l1, l2, o1, o2, parts, 1):
        ev = mk()
        p, q = ev.words
        counts = [bin(p[o1 + i] ^ q[o2 + i]).count('1') for i in range(size)]
        want = reference(parts, counts, o1, o2)
        # stay clear of decisions that rounding could change
        if shaky(parts, counts, o1, o2):
            continue
        try:
            if base.st is None or not ev.bdd(base.st.pc):
                continue
            got = base.evaluate(ev)
        except (Unknown, Domain, ZeroDivisionError):
            continue
        if len(got) != len(want) or any(g[:3] != w[:3] or abs(g[3] - w[3]) > 1e-6 for g, w in zip(got, want)):
            ck.bad(key, 'segments %s, expected %s (differing bits %s in parts %s)' % (got, want, counts, parts))
            return

    def visit(run, segs, facts):
        M = run.M
        ctx = run.st.ctx()
        out = []
        for b, e in parts:
            s = sum((popcount(M, run, o1 + i, o2 + i) for i in range(b, e)), ZERO)
            s = T.fdiv(s, C(e - b))
            g = ctx.simplify(T.flt0(s - T.fconst(THRESHOLD)))
            if g is not TRUE and g is not FALSE:
                return g
            if g is FALSE:
                continue
            if out and out[-1][0] + out[-1][2] == o1 + b:
                d = out[-1][3] - s
                d = N.fabs_term(d) if d.cval() is None else C(abs(d.cval()))
                g = ctx.simplify(T.flt0(d - T.fconst(DIFFERENCE)))
                if g is not TRUE and g is not FALSE:
                    return g
                if g is TRUE:
                    a, c, n, t = out[-1]
                    out[-1] = (a, c, n + e - b, T.fdiv(t * C(n) + s * C(e - b), C(n + e - b)))
                    continue
            out.append((o1 + b, o2 + b, e - b, s))
        if len(out) != len(segs):
            ck.unk(key, '%d segments instead of %d under conditions without a witness' % (len(segs), len(out)))
        else:
            for x, y in zip(out, segs):
                if x[:3] != y[:3] or not (approx(x[3], y[3]) or prove_eq(x[3], y[3], run.st.pc)):
                    ck.unk(key, 'segment %s score %s' % (y[:3], repr(y[3])[:80]))
        return None
    n = len(ck.obs)
    leaves = explore(ck, key, lambda f: Tail(ck, l1, l2, idx, curve, f), visit)
    if len(ck.obs) == n:
        ck.ok(key, 'all %d cases' % leaves)


def shaky(parts, counts, o1, o2):
    out = []
    for b, e in parts:
        s = sum(counts[b:e]) / (e - b)
        if s != THRESHOLD and abs(s - THRESHOLD) < 1e-9:
            return True
        if out and abs(abs(out[-1][0] - s) - DIFFERENCE) < 1e-9:
            return True
        if s < THRESHOLD:
            out.append((s, e - b))
            if len(out) > 1 and abs(out[-2][0] - s) < DIFFERENCE:
                x, y = out[-2:]
                out[-2:] = [((x[0] * x[1] + y[0] * y[1]) / (x[1] + y[1]), x[1] + y[1])]
        else:
            pass
    return False
