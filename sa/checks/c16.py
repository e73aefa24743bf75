"""matched segments lie inside both fingerprints, on one diagonal, in order"""
from matcher import *


def run(ck):
    ck.rule = ('abstract interpretation of match_fingerprints from the choice of the best alignment on, for every alignment of enumerated pairs of lengths, with symbolic words and prescribed smoothed differences; the result is split '
               'on every condition until its shape is decided and in every case the segments must be non-empty, inside both fingerprints, on the chosen diagonal, ordered and disjoint')
    ck.assumptions = ['the best alignment is an index into the histogram (0 < index < len1 + len2); the diagonal it stands for is read off the first pair of words that is compared', 'the Gaussian smoothing only writes the two buffers it is given', 'lengths, alignments and smoothed values are enumerated']
    for l1, l2 in ((1, 1), (1, 4), (4, 1), (2, 2), (3, 5), (5, 3), (6, 6)):
        for idx in range(1, l1 + l2):
            for name, sm in (('flat', lambda n: [0] * n), ('ramp', lambda n: [i * 1.0 for i in range(n)]), ('zigzag', lambda n: [(i * i) % 3 * 2.0 for i in range(n)])):
                ck.guard('%dx%d/%d/%s' % (l1, l2, idx, name), one, ck, '%dx%d/%d/%s' % (l1, l2, idx, name), l1, l2, idx, sm)
    for l1, l2, idx in ((14, 14, 14), (18, 12, 14), (12, 18, 10), (40, 3, 20), (22, 25, 27)):
        for peaks in ((), (1,), (4,), (3, 8)) + (((2, 5, 9),) if l1 == 14 else ()):
            k = '%dx%d/%d/%s' % (l1, l2, idx, ','.join(map(str, peaks)) or 'none')
            ck.guard(k, one, ck, k, l1, l2, idx, ramp(peaks))
    for l1, l2, idx, peaks in ((45, 44, 44, (20,)), (44, 45, 47, (18, 33))):
        k = '%dx%d/%d/%s' % (l1, l2, idx, ','.join(map(str, peaks)))
        ck.guard(k, one, ck, k, l1, l2, idx, ramp(peaks))
    for seed in range(12):
        r = random.Random(seed)
        l1, l2 = r.randint(8, 12), r.randint(8, 12)
        idx = r.randint(l2 - 3, l2 + 3)
        vals = [r.choice((0, .1, .2, .4, 1)) for _ in range(4)] + [0.1] * 8 + [r.choice((0, .1, 1)) for _ in range(3)] + [0] * 9
        k = '%dx%d/%d/random %d' % (l1, l2, idx, seed)
        ck.guard(k, one, ck, k, l1, l2, idx, lambda n, vals=vals: vals[:n])


def PARTS(size):
    return [(i, min(i + 3, size)) for i in range(0, size, 3)]


def one(ck, key, l1, l2, idx, smooth):
    def judge(segs):
        last = 0
        for a, b, n, s in segs:
            if n < 1:
                return 'a segment has %d items' % n
            if a + n > l1 or b + n > l2:
                return 'a segment at %d/%d with %d items leaves fingerprints of %d and %d words' % (a, b, n, l1, l2)
            if a - b != o1 - o2:
                return 'a segment at %d/%d is not on the diagonal %d of the alignment' % (a, b, o1 - o2)
            if a < last:
                return 'a segment at %d starts before %d, where the previous one ends' % (a, last)
            last = a + n
        return None
    base = Tail(ck, l1, l2, idx, smooth)
    why = base.usable()
    if why:
        ck.unk(key, why)
        return
    o1, o2, size = base.place()
    half = size // 2
    for mk in envs(l1, l2, o1, o2, [(0, half), (half, size)] if half else [(0, size)]):
        ev = mk()
        try:
            if base.st is None or not ev.bdd(base.st.pc):
                continue
            segs = base.evaluate(ev)
        except (Unknown, Domain, ZeroDivisionError):
            continue
        w = judge(segs)
        if w:
            ck.bad(key, w + ' (words %s)' % (str(ev.words)[:120]))
            return

    def visit(run, segs, facts):
        w = judge(segs)
        if w:
            for mk in envs(l1, l2, o1, o2, [(0, half), (half, size)] if half else [(0, size)]) + envs(l1, l2, o1, o2, PARTS(size), 2):
                ev = mk()
                try:
                    if ev.bdd(run.st.pc) and all(ev.bdd(f) for f in facts):
                        ck.bad(key, w + ' (words %s)' % str(ev.words)[:120])
                        return None
                except (Unknown, Domain, ZeroDivisionError):
                    continue
            ck.unk(key, w + ' under conditions without a witness')
        return None
    n = len(ck.obs)
    leaves = explore(ck, key, lambda f: Tail(ck, l1, l2, idx, smooth, f), visit)
    if len(ck.obs) == n:
        ck.ok(key, 'all %d cases' % leaves)
