"""matching looks at the alignment on which most words agree in their upper twelve bits"""
from matcher import *


def run(ck):
    ck.rule = ('abstract interpretation of match_fingerprints as a whole on words whose upper twelve bits are enumerated and whose lower twenty bits are symbolic: the values handed to the smoothing must be the numbers of differing bits '
               'of the words paired by an alignment with the largest number of agreeing upper parts, all of them and in order; when no alignment has two such pairs the result must be empty')
    ck.assumptions = ['pairs of lengths up to 15 and patterns of upper bits are enumerated', 'the lower twenty bits do not influence the choice (they are symbolic throughout)']
    for seed in range(208):
        r = random.Random(seed)
        top = 9 if seed < 200 else 15
        l1, l2 = r.randint(1, top), r.randint(1, top)
        if seed < 8:
            l1, l2 = ((1, 1), (2, 2), (1, 5), (5, 1), (2, 7), (7, 2), (0, 3), (3, 3))[seed]
        alpha = [r.getrandbits(12) for _ in range(r.choice((2, 3, 6, 12)))] + [0, 4095][:r.randint(0, 2)]
        if seed % 2:                # values that differ in one bit only
            alpha += [x ^ 1 << r.randrange(12) for x in alpha[:3]] + [alpha[0] ^ 0x800]
        a = [r.choice(alpha) for _ in range(l1)]
        b = [r.choice(alpha) for _ in range(l2)]
        if r.random() < .6 and l1 and l2:
            d = r.randint(-l2 + 1, l1 - 1)
            for j in range(l2):
                if 0 <= j + d < l1 and r.random() < .85:
                    b[j] = a[j + d]
        if seed % 7 == 3:           # nothing in common
            b = [(x + 1) % 4096 if (x + 1) % 4096 not in a else next(y for y in range(4096) if y not in a) for x in a][:l2] or b
            l2 = len(b)
        ck.guard('pattern/%d' % seed, one, ck, 'pattern/%d' % seed, a, b)


def one(ck, key, a, b):
    count = {}
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if x == y:
                count[i - j] = count.get(i - j, 0) + 1
    best = max(count.values(), default=0)
    want = [(max(d, 0), max(-d, 0)) for d in count if count[d] == best and best >= 2]
    words = tuple([C(h << 20) + sym('%s%d' % (n, i), U32, 0, (1 << 20) - 1) for i, h in enumerate(hs)] for n, hs in (('p', a), ('q', b)))
    R = Tail(ck, len(a), len(b), 0, lambda n: [0] * n, words=words)
    show = 'upper bits %s and %s' % (a, b)
    if R.st is None:
        ck.unk(key, 'no path returns')
        return
    if not want:
        s = R.segments() if isinstance(R.r, Enum) else None
        if R.cuts['smooth']:
            ck.bad(key, 'compared although no alignment has two agreeing words: ' + show)
        elif s is not None and s.len == ZERO:
            ck.ok(key, 'no alignment, empty result')
        else:
            ck.unk(key, 'no alignment: result %s' % repr(R.r)[:80])
        return
    if not R.cuts['smooth']:
        if isinstance(R.r, Enum) and R.segments() is not None and R.segments().len == ZERO:
            ck.bad(key, 'nothing is compared although an alignment has %d agreeing words: %s' % (best, show))
        else:
            ck.unk(key, 'the smoothing was not recognised')
        return
    got = None
    for i, j in [w for w in want] + [(i, j) for i in range(len(a)) for j in range(len(b)) if not i or not j]:
        n = min(len(a) - i, len(b) - j)
        if n == R.size and all(x == popcount(R.M, R, i + k, j + k) for k, x in enumerate(R.compared)):
            got = i, j
            break
    if got is None:
        # other values under some words?
        for i, j in want:
            n = min(len(a) - i, len(b) - j)
            if len(want) == 1 and n != R.size:
                ck.bad(key, '%d words are compared, the alignment %d/%d has %d: %s' % (R.size, i, j, n, show))
                return
            if len(want) == 1:
                for q in range(6):
                    rr = random.Random(q)
                    ev = Ev({'%s%d' % (c, x): rr.getrandbits(20) for c in 'pq' for x in range(26)})
                    for k, x in enumerate(R.compared):
                        u, v = ev.val(x), ev.val(popcount(R.M, R, i + k, j + k))
                        if u != v:
                            ck.bad(key, 'value %d given to the smoothing is %s, the words of the alignment %d/%d differ in %s bits: %s' % (k, u, i, j, v, show))
                            return
        ck.unk(key, 'the compared words are not recognised')
    elif got in want:
        ck.ok(key, 'alignment %d/%d with %d agreeing words' % (got + (best,)))
    else:
        ck.bad(key, 'words are compared at %d/%d with %d agreeing, but %d/%d has %d: %s' % (got + (count.get(got[0] - got[1], 0),) + want[0] + (best, show)))
