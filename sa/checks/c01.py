"""a restarted fingerprinter behaves like a new one"""
from calc import *
from checks.c08 import mono_of, report
from checks.c09 import pieces, label
from checks.c06 import symrow, rnd_envs

FR, OV, W2 = 16, 10, (9, 13)


def run(ck):
    ck.rule = ('abstract interpretation of new/start/consume/[finish]/start/consume/finish with symbolic samples and transform outputs in both lives: right after the second start the fingerprint is empty; the '
               'second life hands the transform exactly the windowed frames of its own samples, and its words are the closed form that a new fingerprinter yields for the same samples and transforms, '
               'none depending on anything of the first life; the same at the last stage for long first lives, and for resampled streams')
    ck.assumptions = ['real arithmetic up to 1e-9 relative', 'the transform and the resampler are given by their outputs; a new or reset resampler keeps nothing']
    fresh = {}
    lives = [('none', 11025, 1, None, True), ('nothing', 11025, 1, (), False), ('partial frame', 11025, 1, (7,), False), ('partial frame finished', 11025, 1, (7,), True), ('one frame and a rest', 11025, 1, (21,), False),
             ('one frame and a rest finished', 11025, 1, (21,), True), ('warm-up', 11025, 1, (28, 5), False), ('many', 11025, 1, (40, 3, 57), True), ('many unfinished', 11025, 1, (40, 3, 58), False),
             ('stereo', 11025, 2, (23,), False), ('stereo finished', 11025, 2, (29,), True), ('three channels', 11025, 3, (9, 31), False), ('resampled unfinished', 44100, 1, (200,), False), ('resampled', 48000, 2, (40, 77), True)]
    for second in ((1, (64,)), (1, (5, 12, 71)), (2, (9, 61)), (1, (45,)), (1, (15,)), (1, ())):
        for l in lives[1:]:
            if ck.left() < 300:
                break
            ck.guard('two lives/%s/%s' % (l[0], second), two, ck, fresh, l, second)
    ck.guard('three lives', three, ck, fresh)
    ck.guard('finish twice', two, ck, fresh, ('finished twice', 11025, 1, (40,), 2), (1, (64,)))
    for first, n in (((3,), 18), ((18,), 18), ((2, 17), 16), ((261,), 18), ((257,), 17)):
        ck.guard('last stage/%s' % (first,), last, ck, first, n)
    ck.guard('resampled', resampled, ck)
    for first in (40, 5000, 33000):
        for preset in (2, 5):
            ck.guard('preset%d/after %d' % (preset, first), preset_run, ck, preset, first)


def base(ck, **kw):
    M = fft_boundary(resampler_boundary(Model(ck), (9, 14, 7)))
    M.I.unroll = 120
    st = small(M, frame=FR, overlap=OV, ncoef=3, classifiers=W2, **kw)
    return M, st


def live(M, st, name, prefix, rate, ch, cuts, fin):
    """one stream of sum(..) = cuts[-1] frames cut at the earlier positions"""
    M.fft_prefix, M.fft_base = prefix, len(fft_log(M))
    st, r = M.start(st, C(rate), C(ch))
    at = len(M.I.events)
    w0 = words_of(M, st)
    if cuts:
        st = pieces(M, st, name, cuts[-1], ch, cuts[:-1])
    for _ in range(int(fin)):
        st = M.finish(st) if st is not None else None
    return st, w0


def words_of(M, st):
    st, r = M.fingerprint(st)
    s = M.seq(st, r)
    if s is None or not s.len.is_const():
        return None
    return [M.I.select(s.arr, C(i), st.ctx()) for i in range(int(s.len.cval()))]


def reference(ck, fresh, ch, cuts):
    k = (ch, cuts)
    if k not in fresh:
        M, st = base(ck)
        st, w0 = live(M, st, 'Q', 'F', 11025, ch, cuts, True)
        fresh[k] = words_of(M, st) if st is not None else None
    return fresh[k]


def compare(ck, key, M, st, w0, ref, ch, cuts, nfft):
    envs = envs_for(('P', 'Q', 'O') + tuple('%s%d' % (p, k) for p in 'FGH' for k in range(24)))
    if w0 is not None:
        ck.decide(key + '/empty', not w0, 'the fingerprint is empty after start (%d words)' % len(w0))
    if st is None:
        ck.bad(key + '/returns', 'the pipeline never returns')
        return
    ws = words_of(M, st)
    if ws is None or ref is None or M.I.quiet:
        ck.unk(key, 'number of words not constant')
        return
    n = cuts[-1] if cuts else 0
    sub(ck, key, M, st, mono_of(M, ch, 'Q'), n, nfft, envs)
    if len(ws) != len(ref):
        ck.bad(key + '/count', '%d words, a new fingerprinter gives %d' % (len(ws), len(ref)))
        return
    ck.ok(key + '/count', '%d words' % len(ws))
    ck.scope['words compared'] = ck.scope.get('words compared', 0) + len(ws)
    for i, (a, b) in enumerate(zip(ws, ref)):
        r = True if a == b else witness(a, b, envs)
        verdict(ck, '%s/word%d' % (key, i), r, 'same closed form as from a new fingerprinter')
        if r is not True:
            return


def sub(ck, key, M, st, mono, n, nfft, envs):
    """the transforms of the last life"""
    log = fft_log(M)[nfft:]
    if any(e['loops'] for e in log):
        ck.unk(key + '/frames', 'transforms inside a summarised loop')
        return
    if any(e['pc'] is not TRUE and st.ctx().simplify(e['pc']) is not TRUE for e in log):
        ck.unk(key + '/frames', 'conditional transforms')
        return
    want = frame_count(n, FR, OV)
    ck.decide(key + '/frames', len(log) == want, '%d transforms for %d mono samples since the restart, expected %d' % (len(log), n, want))
    for k, l in enumerate(log[:want]):
        check_frame(ck, '%s/frame%d' % (key, k), M, l, k, mono, FR, FR - OV, st, envs, 'the transform sees the samples since the restart')


def two(ck, fresh, first, second):
    what, rate, ch, cuts, fin = first
    ch2, cuts2 = second
    key = 'after %s/%d:%s' % (what, ch2, label(cuts2))
    ref = reference(ck, fresh, ch2, cuts2)
    M, st = base(ck)
    if cuts is not None:
        st, _ = live(M, st, 'P', 'G', rate, ch, cuts, fin)
    nfft = len(fft_log(M))
    st, w0 = live(M, st, 'Q', 'F', 11025, ch2, cuts2, True)
    panic_events(ck, key, M, 0, envs_for(('P', 'Q')))
    compare(ck, key, M, st, w0, ref, ch2, cuts2, nfft)
    ck.scope['histories compared'] = ck.scope.get('histories compared', 0) + 1


def three(ck, fresh):
    """two lives before, and starts that are rejected in between"""
    ref = reference(ck, fresh, 1, (64,))
    M, st = base(ck)
    st, _ = live(M, st, 'P', 'G', 11025, 2, (31,), True)
    st, _ = live(M, st, 'O', 'H', 11025, 1, (26,), False)
    st, r = M.start(st, C(500), C(1))
    st, r = M.start(st, C(11025), C(0))
    nfft = len(fft_log(M))
    st, w0 = live(M, st, 'Q', 'F', 11025, 1, (64,), True)
    compare(ck, 'after two lives and rejected starts', M, st, w0, ref, 1, (64,), nfft)


def last(ck, first, n):
    """the last stage on rows given by symbols, the first lives in concrete rows"""
    key = 'last stage/after %s rows' % '+'.join(map(str, first))
    w = 16
    geo = [(3, 2, 6, w), (1, 0, 12, w - 2), (0, 4, 3, 5)]
    ts = [(-0.2, 0.1, 0.4), (-0.5, 0.0, 0.3), (1.9, 2.3, 2.6)]
    params = [g + (t,) for g, t in zip(geo, ts)]
    sk = sum(first)
    R = Rows(ck, params, list(first) + [n], lambda M, k: symrow(M, k - sk) if k >= sk else [T.fconst(float((k * 37 + c * 11) % 29)) for c in range(12)])
    F = Rows(ck, params, n, lambda M, k: symrow(M, k))
    if not (R.ok and F.ok):
        ck.unk(key, R.why or F.why)
        return
    if len(R.words) != len(F.words):
        ck.bad(key + '/count', '%d words, a new fingerprinter gives %d' % (len(R.words), len(F.words)))
        return
    for i, (a, b) in enumerate(zip(R.words, F.words)):
        r = True if a == b else prove_sum(a, b, TRUE, ())
        if r is not True:
            r = witness(a, b, rnd_envs(n, len(geo), 0))
        verdict(ck, '%s/word%d' % (key, i), r, 'same word as from a new fingerprinter')
        if r is not True and r is not None:
            return


def resampled(ck):
    """a stream at another rate after one at another or the same rate has an unused resampler and gets its own samples only"""
    from checks import c27
    c27.restart(ck)


def preset_run(ck, preset, first):
    """transform inputs of a preset's second life"""
    from ref import PRESETS
    R = PRESETS[preset]
    n = R['frame'] * 2 + 37
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    st = M.started(preset, C(11025), C(1))
    st = pieces(M, st, 'P', first, 1, ())
    nfft = len(fft_log(M))
    st, r = M.start(st, C(11025), C(1))
    st = pieces(M, st, 'Q', n, 1, ())
    st = M.finish(st) if st else None
    key = 'preset%d/after %d' % (preset, first)
    envs = envs_for(('P', 'Q'))
    if st is None:
        ck.bad(key + '/returns', 'the pipeline never returns')
        return
    log = fft_log(M)[nfft:]
    if any(e['loops'] for e in log) or any(e['pc'] is not TRUE and st.ctx().simplify(e['pc']) is not TRUE for e in log):
        ck.unk(key, 'conditional transforms')
        return
    want = frame_count(n, R['frame'], R['overlap'])
    ck.decide(key + '/frames', len(log) == want, '%d transforms, expected %d' % (len(log), want))
    for k, l in enumerate(log[:want]):
        check_frame(ck, '%s/frame%d' % (key, k), M, l, k, mono_of(M, 1, 'Q'), R['frame'], R['frame'] - R['overlap'], st, envs, 'the transform sees the samples since the restart')
