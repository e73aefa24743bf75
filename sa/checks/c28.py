"""the fingerprint only grows until the next start"""
from calc import *
from ref import PRESETS
from checks.c06 import symrow

SMALL = [(16, 10, 3, (9, 13)), (12, 6, 1, (10,)), (8, 5, 2, (9,)), (16, 4, 5, (5, 9))]


def run(ck):
    ck.rule = ('abstract interpretation of a stream consumed in pieces (empty ones included) with symbolic samples and transform outputs, the words read after every call: each list of words starts with the one '
               'read before, as identical terms; a further finish and an empty consume add no transform, no resampler call and no word; the number of words is max(0, frames - (ncoef-1) - (widest-1)), for '
               'symbolic content, for silence and for long streams')
    ck.assumptions = ['the transform and the resampler are given by their outputs']
    for cfg in SMALL:
        fr, ov, nc, cl = cfg
        for zero in (False, True):
            ck.guard('grow/%s' % (cfg,), grow, ck, cfg, zero)
        ck.guard('count/%s' % (cfg,), count, ck, cfg)
    ck.guard('resampled', resampled, ck)
    for n in (2, 15, 16, 17, 300):
        ck.guard('rows/%d' % n, rows, ck, n)
    for p in sorted(PRESETS):
        ck.guard('preset%d' % p, preset, ck, p)


def read(M, st):
    st, r = M.fingerprint(st)
    s = M.seq(st, r)
    if s is None:
        return st, None
    if not s.len.is_const():
        return st, s.len
    return st, [M.I.select(s.arr, C(i), st.ctx()) for i in range(int(s.len.cval()))]


def envs():
    out = []
    base = envs_for(('A',) + tuple('F%d' % k for k in range(40)))
    for mk in base:
        out.append(mk)

    def flat():
        e = Ev({}, seed=0)
        for nm in ('A',) + tuple('F%d' % k for k in range(40)):
            e.arr[nm] = lambda i, proj: 0.0
        return e

    def const():
        e = Ev({}, seed=0)
        for nm in ('A',) + tuple('F%d' % k for k in range(40)):
            e.arr[nm] = lambda i, proj: 100.0 if proj and proj[0] == 're' else 0.0
        return e
    return out + [flat, const]


def number(ck, key, ws, want, what):
    if ws is None:
        ck.unk(key, 'fingerprint not readable')
        return False
    if isinstance(ws, list):
        ck.decide(key, len(ws) == want, '%d words, expected %d %s' % (len(ws), want, what))
        return len(ws) == want
    verdict(ck, key, True if prove_eq(ws, C(want)) is True else witness(ws, C(want), envs()), 'number of words is %d %s' % (want, what))
    return False


def expected(frames, nc, wid):
    return max(0, frames - (nc - 1) - (wid - 1))


def widest(M, cl):
    t = template(M)
    fl = [dict((p[-1][0], x) for p, x in walk(M, t[i])) for i in cl]
    return max(int(f['width'].cval()) for f in fl)


def grow(ck, cfg, zero):
    fr, ov, nc, cl = cfg
    key = 'grow/%d-%d-%d-%s%s' % (fr, ov, nc, cl, '/silence' if zero else '')
    M = fft_boundary(Model(ck), zero=zero)
    M.I.unroll = 120
    wid = widest(M, cl)
    st = small(M, frame=fr, overlap=ov, ncoef=nc, classifiers=cl)
    st, r = M.start(st)
    hop = fr - ov
    total = fr + hop * (nc + wid + 3) + 1
    o = ('data', 'A')
    st.mem[o] = SeqV(ArrSym('A', M.tid('i16')), C(total))
    cuts = [0, 1, 1, fr - 1, fr, fr + 2 * hop, fr + 2 * hop, total - 2 * hop - 1, total - 2, total, total]
    prev, old, step = 0, [], 0
    for c in cuts + ['finish', 'finish', 'empty', 'finish']:
        f0 = len(fft_log(M))
        if c == 'finish':
            st = M.finish(st)
            what = 'finish'
        else:
            c = prev if c == 'empty' else c
            st = M.consume(st, Ref(o, (), (C(prev), C(c - prev))))
            what = 'consuming %d samples' % (c - prev)
        if st is None:
            ck.bad(key + '/returns', '%s never returns' % what)
            return
        st, ws = read(M, st)
        k = '%s/step%d' % (key, step)
        step += 1
        if not isinstance(ws, list):
            ck.unk(k, 'number of words not constant')
            return
        if len(ws) < len(old):
            ck.bad(k + '/grows', 'after %s there are %d words, before %d' % (what, len(ws), len(old)))
            return
        for i, (a, b) in enumerate(zip(ws, old)):
            r = True if a == b else witness(a, b, envs())
            verdict(ck, '%s/word%d' % (k, i), r, 'the word returned before is unchanged by %s' % what)
            if r is not True:
                break
        again = c == prev and what != 'finish' or what == 'finish' and step > len(cuts) + 1
        if again:
            ck.decide(k + '/nothing', len(ws) == len(old) and (what != 'finish' and step <= len(cuts) and True or len(fft_log(M)) == f0),
                      '%s: %d new words, %d transforms' % (what + (' after everything was finished' if what == 'finish' else ''), len(ws) - len(old), len(fft_log(M)) - f0))
        if not isinstance(c, str):
            prev = c
        old = ws
    number(ck, key + '/count', old, expected(frame_count(total, fr, ov), nc, wid), 'for %d frames, %d coefficients, width %d' % (frame_count(total, fr, ov), nc, wid))
    ck.scope['calls compared'] = ck.scope.get('calls compared', 0) + step


def count(ck, cfg):
    fr, ov, nc, cl = cfg
    hop = fr - ov
    M0 = Model(ck)
    wid = widest(M0, cl)
    first = fr + hop * (nc - 1 + wid - 1)           # the first word needs this many samples
    for zero in (True, False):
        for n in sorted({0, 1, fr - 1, fr, first - 1, first, first + hop - 1, first + hop, first + 2 * hop}):
            M = fft_boundary(Model(ck), zero=zero)
            M.I.unroll = 120
            st = small(M, frame=fr, overlap=ov, ncoef=nc, classifiers=cl)
            st, r = M.start(st)
            st = M.consume(st, M.samples(st, 'A', C(n)))
            st = M.finish(st) if st is not None else None
            key = 'count/%d-%d-%d-%s/%d%s' % (fr, ov, nc, cl, n, '/silence' if zero else '')
            if st is None:
                ck.bad(key, 'the pipeline never returns')
                continue
            st, ws = read(M, st)
            number(ck, key, ws, expected(frame_count(n, fr, ov), nc, wid), 'for %d samples' % n)


def resampled(ck):
    M = fft_boundary(resampler_boundary(Model(ck), (9, 14, 16)), zero=True)
    M.I.unroll = 120
    st = small(M, frame=8, overlap=4, ncoef=2, classifiers=(9,))
    st, r = M.start(st, C(44100), C(1))
    o = ('data', 'A')
    n = 40
    st.mem[o] = SeqV(ArrSym('A', M.tid('i16')), C(n))
    st = M.consume(st, Ref(o, (), (ZERO, C(n))))
    st = M.finish(st) if st is not None else None
    for what in ('a second finish', 'an empty consume', 'a third finish'):
        if st is None:
            ck.bad('resampled', 'the pipeline never returns')
            return
        st, old = read(M, st)
        f0, c0 = len(fft_log(M)), len(M.rs_calls)
        st = M.finish(st) if 'finish' in what else M.consume(st, Ref(o, (), (C(n), ZERO)))
        if st is None:
            ck.bad('resampled', '%s never returns' % what)
            return
        st, ws = read(M, st)
        if not isinstance(ws, list) or not isinstance(old, list):
            ck.unk('resampled', 'number of words not constant')
            return
        new = [e for e in M.rs_calls[c0:] if e['what'].startswith('process')]
        ck.decide('resampled/' + what, ws == old and len(fft_log(M)) == f0 and not new, '%s: %d new words, %d transforms, %d resampler calls' % (what, len(ws) - len(old), len(fft_log(M)) - f0, len(new)))


def rows(ck, n):
    """the last stage alone: one word per row from the widest filter's width on"""
    w = 16
    params = [(3, 2, 6, w, (-0.2, 0.1, 0.4)), (0, 0, 1, 1, (0.2, 0.4, 0.6))]
    for what, rowf in (('silence', lambda M, k: [T.fconst(0.0)] * 12), ('sound', lambda M, k: [T.fconst(float((k * 37 + c * 11) % 29) / 29) for c in range(12)])):
        R = Rows(ck, params, n, rowf)
        key = 'rows/%d/%s' % (n, what)
        if not R.ok:
            ck.unk(key, R.why)
            continue
        ck.decide(key, len(R.words) == max(0, n - w + 1), '%d words for %d rows and a widest filter of %d' % (len(R.words), n, w))


def preset(ck, p):
    """each preset on silence: nothing until the warm-up is over, then a word per frame"""
    R = PRESETS[p]
    from ref import COEFS, TABLES
    hop = R['frame'] - R['overlap']
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    M.I.max_blocks = 2000000
    st = M.started(p)
    need = len(COEFS) - 1 + max(t[3] for t in TABLES[R['table']]) - 1
    n = R['frame'] + hop * need
    o = ('data', 'A')
    st.mem[o] = SeqV(ArrSym('A', M.tid('i16')), C(n + hop))
    for a, b in ((0, n - 1), (n - 1, n), (n, n + hop)):
        st = M.consume(st, Ref(o, (), (C(a), C(b - a))))
        st = M.finish(st) if st is not None and b >= n - 1 else st
        if st is None:
            ck.bad('preset%d' % p, 'the pipeline never returns')
            return
        st, ws = read(M, st)
        number(ck, 'preset%d/%d' % (p, b), ws, expected(frame_count(b, R['frame'], R['overlap']), len(COEFS), need - len(COEFS) + 2), 'after %d samples' % b)
