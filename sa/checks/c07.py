"""filter responses and the rolling image"""
from calc import *
from checks.c06 import word, symrow, thresholds, ordered, spec_word, rnd_envs
from ref import TABLES


def run(ck):
    ck.rule = ('abstract interpretation of the pipeline with symbolic chroma rows at the last stage: with thresholds as symbols each word fixes ln((1+a)/(1+b)) of every classifier, compared with the sums '
               'over the two rectangle sets written out; geometries of all presets and of every filter kind in other sizes; the newest row last; the same after 250 to 530 rows and after a restart')
    ck.assumptions = ['real arithmetic: sums of prefix sums cancel exactly']
    for n, tab in sorted(TABLES.items()):
        ck.guard('table%d' % n, word, ck, 'table%d' % n, [r[:4] for r in tab], 17)
    hw = [(1, 1), (2, 2), (3, 3), (5, 7), (12, 4), (4, 5), (6, 6), (1, 9), (11, 1), (12, 2)]
    for kind in range(6):
        ck.guard('kind%d' % kind, word, ck, 'kind%d' % kind, [(kind, (12 - h) // 2 if j % 2 else 12 - h, h, w) for j, (h, w) in enumerate(hw)], 11)
    for w in (1, 3, 8, 16):
        ck.guard('edge/w%d' % w, word, ck, 'edge/w%d' % w, [(k, 0, 12, w) for k in range(6)], w + 1)
    for n, live in ((272, 34), (530, 20)):
        ck.guard('wrap/%d' % n, wrap, ck, n, live)
    ck.guard('restart', restarted, ck)


def const(k, c):
    return float((k * 37 + c * 11) % 29)


def wrap(ck, n, span, w=16):
    """only the last rows are symbolic; every word, also those of the concrete rows, is compared"""
    geo = [(3, 2, 6, w), (1, 0, 12, w - 2), (5, 4, 3, w), (0, 0, 1, 1)]
    live = set(range(n - span, n))
    rowf = lambda M, k: symrow(M, k) if k in live else [T.fconst(const(k, c)) for c in range(12)]
    ts = [thresholds(j) for j in range(len(geo))]
    R = Rows(ck, [g + (t,) for g, t in zip(geo, ts)], n, rowf)
    key = 'wrap/%d' % n
    if not R.ok:
        ck.unk(key, R.why)
        return
    if len(R.words) != n - w + 1:
        ck.bad(key + '/count', '%d words for %d rows' % (len(R.words), n))
        return
    panic_events(ck, key, R.M, 0, [])
    rows = [rowf(R.M, k) for k in range(n)]
    asm = [a for t in ts for a in ordered(t)]
    bad = 0
    for i in sorted({*range(0, n - w + 1, 40), *range(n - span - 2, n - w + 1)}):
        s = spec_word(geo, ts, rows, i)
        r = prove_sum(R.words[i], s, TRUE, tuple(asm) + tuple(R.st.assume))
        if r is not True:
            r = witness(R.words[i], s, rnd_envs(n, len(geo), n - span), TRUE, tuple(asm))
        verdict(ck, '%s/word%d' % (key, i), r, 'responses over the rows %d to %d of a stream of %d rows' % (i, i + w - 1, n))
        if r is not True and r is not None:
            return


def restarted(ck):
    for before, n in ((3, 17), (17, 18), (260, 17)):
        w = 16
        geo = [(3, 2, 6, w), (1, 0, 12, w - 2), (5, 4, 3, w), (0, 0, 1, 1)]
        rowf = lambda M, k: symrow(M, k) if k >= before else [T.fconst(const(k, c)) for c in range(12)]
        ts = [thresholds(j) for j in range(len(geo))]
        R = Rows(ck, [g + (t,) for g, t in zip(geo, ts)], [before, n], rowf)
        key = 'restart/%d' % before
        if not R.ok:
            ck.unk(key, R.why)
            continue
        if len(R.words) != n - w + 1:
            ck.bad(key + '/count', '%d words for %d rows after a restart' % (len(R.words), n))
            continue
        rows = [rowf(R.M, before + k) for k in range(n)]
        asm = [a for t in ts for a in ordered(t)]
        for i in range(n - w + 1):
            s = spec_word(geo, ts, rows, i)
            r = prove_sum(R.words[i], s, TRUE, tuple(asm) + tuple(R.st.assume))
            if r is not True:
                r = witness(R.words[i], s, rnd_envs(before + n, len(geo), before), TRUE, tuple(asm))
            verdict(ck, '%s/word%d' % (key, i), r, 'responses over the rows since the restart')
