"""how a stream is cut into consume() calls does not matter"""
from specs import *
from checks.c08 import mono_of, report


def run(ck):
    ck.rule = ('abstract interpretation of new/start/consume*/finish where one symbolic stream is passed in pieces (concrete and symbolic '
               'split points, empty pieces included): FFT inputs and their number must be those of the unsplit stream; small pipelines are '
               'followed up to the fingerprint, which must be the same closed form')
    ck.assumptions = ['the FFT result is a function of its input', 'real arithmetic up to 1e-9 relative rounding of literals']
    fr, ov = 8, 4
    for ch, n, cuts in ((1, 30, (0,)), (1, 30, (1,)), (1, 30, (7,)), (1, 30, (8,)), (1, 30, (9, 9, 17)), (1, 30, (30,)), (1, 30, tuple(range(1, 30))),
                        (2, 20, (0, 3, 3, 11)), (2, 20, tuple(range(1, 20))), (3, 17, (5, 12)), (5, 13, (1, 2, 12))):
        ck.guard('small/ch%d' % ch, small_run, ck, fr, ov, ch, n, cuts)
    for preset, ch, n, cuts in ((2, 1, 33000, (32767,)), (2, 1, 33000, (32768,)), (2, 1, 38000, (32769,)), (2, 1, 40000, (5000, 5001, 37768)),
                                (5, 1, 34000, (100, 33000)), (2, 2, 33000, (32767,)), (2, 2, 33500, (16384, 32768)), (2, 3, 32800, (10, 32790))):
        ck.guard('preset%d/ch%d' % (preset, ch), preset_run, ck, preset, ch, n, cuts)
    for preset, ch, n, lo, hi in ((2, 1, 32768, 3, 32760), (2, 1, 38000, 3, 32760), (2, 2, 33500, 3, 32760), (5, 1, 33000, 3, 32760), (2, 1, 36000, 32776, 35990)):
        ck.guard('symbolic/%d-%d-%d' % (preset, ch, n), sym_split, ck, preset, ch, n, lo, hi)
    ck.guard('words', words, ck)
    B = 32768
    for ch, rate, n, cuts in ((2, 44100, B - 1, (B - 2,)), (2, 44100, 2 * B - 1, (B - 1,)), (1, 44100, B + 1, (B - 1, B)), (3, 48000, B + 1, (1, B - 1))):
        ck.guard('resampled/ch%d/n%d' % (ch, n), resampled, ck, ch, rate, n, cuts)


def pieces(M, st, name, n, ch, cuts):
    o = ('data', name)
    st.mem[o] = SeqV(ArrSym(name, M.tid('i16')), C(n * ch))
    prev = ZERO
    for c in list(cuts) + [n]:
        c = (C(c) if isinstance(c, int) else c) * ch
        st = M.consume(st, Ref(o, (), (prev, c - prev)))
        if st is None:
            return None
        prev = c
    return st


def small_run(ck, fr, ov, ch, n, cuts):
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 80
    st = small(M, frame=fr, overlap=ov, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(11025), C(ch))
    st = pieces(M, st, 'A', n, ch, cuts)
    st = M.finish(st) if st else None
    report(ck, 'small/ch%d/n%d/%s' % (ch, n, label(cuts)), M, st, mono_of(M, ch), fr, ov, n)


def resampled(ck, ch, rate, n, cuts):
    """at another rate the resampler is given the whole stream in order, however it is cut"""
    from checks import c27
    c27.stream(ck, ch, rate, n, cuts)


def label(cuts):
    return '-'.join(map(str, cuts)) if len(cuts) < 6 else 'every sample'


def preset_run(ck, preset, ch, n, cuts):
    from ref import PRESETS
    R = PRESETS[preset]
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    st = M.started(preset, C(11025), C(ch))
    st = pieces(M, st, 'A', n, ch, cuts)
    st = M.finish(st) if st else None
    report(ck, 'preset%d/ch%d/n%d/%s' % (preset, ch, n, label(cuts)), M, st, mono_of(M, ch), R['frame'], R['overlap'], n)


def sym_split(ck, preset, ch, n, lo, hi):
    from ref import PRESETS
    R = PRESETS[preset]
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    st = M.started(preset, C(11025), C(ch))
    s = sym('split', USIZE, lo, hi)
    st = pieces(M, st, 'A', n, ch, (s,))
    st = M.finish(st) if st else None
    report(ck, 'symbolic/%d/ch%d/n%d' % (preset, ch, n), M, st, mono_of(M, ch), R['frame'], R['overlap'], n,
           env=[{'split': x} for x in (lo, hi, lo + 1, (lo + hi) // 2, 4096, 1365, 16384, 32000) if lo <= x <= hi])


def words(ck):
    """the whole way to the words: split and unsplit runs give the same closed form"""
    n = 40
    res = {}
    for cuts in ((), (17, 17, 29)):
        M = rubato_contract(fft_boundary(Model(ck)))
        st = small(M, classifiers=(9,))
        st, r = M.start(st)
        st = pieces(M, st, 'A', n, 1, cuts)
        st = M.finish(st)
        st, r = M.fingerprint(st)
        res[cuts] = M.seq(st, r)
    a, b = res.values()
    k = 'words/n%d' % n
    if a == b:
        ck.ok(k, 'identical closed forms for %s words' % a.len)
        return
    if a.len != b.len and a.len.is_const() and b.len.is_const():
        ck.bad(k + '/count', 'split run yields %s words, unsplit %s' % (b.len, a.len))
        return
    ck.unk(k, 'closed forms differ structurally')
