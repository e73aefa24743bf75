"""framing: every overlapped frame of the mono stream is windowed, scaled and transformed exactly once"""
from specs import *


def run(ck):
    ck.rule = ('abstract interpretation of new/start/consume/finish with symbolic samples; at the FFT call boundary the k-th input must equal '
               'hamming(i)*sample[k*(frame-overlap)+i]/32767 with zero imaginary part, and the number of transforms must be '
               'floor((n-frame)/(frame-overlap))+1 (0 for shorter streams)')
    ck.assumptions = ['the FFT result is arbitrary but framing does not depend on it', 'real arithmetic up to 1e-9 relative rounding of literals']
    small_cases = [(8, 4, 1), (8, 5, 1), (8, 0, 1), (7, 3, 1), (8, 7, 1), (16, 10, 2), (12, 6, 3), (9, 1, 1)]
    for fr, ov, ch in small_cases:
        totals = [0, 1, fr - 1, fr, fr + 1, 2 * fr - ov - 1, 2 * fr - ov, 3 * fr - 2 * ov, 5 * fr + 3]
        if ck.thorough:
            totals = list(range(0, 6 * fr))
        for n in totals:
            if ck.left() < 60:
                break
            ck.guard('small/%d-%d-%d' % (fr, ov, ch), small_run, ck, fr, ov, ch, n)
    for preset, ns in ((2, (4095, 4096, 5461, 32768, 32769, 41000)), (5, (2048, 3071, 3072, 33000)), (1, (5000,)), (3, (5000,)), (4, (5000,))):
        for n in ns:
            ck.guard('preset%d/%d' % (preset, n), preset_run, ck, preset, n)
    # streams around multiples of the internal sample buffer whose last frame ends at the last sample
    for n in (32767, 32768, 32769, 65536, 65537):
        for d in (0, -1):
            ck.guard('buffer edge/%d' % n, edge_run, ck, n, d)
    if ck.thorough:
        for preset, n in ((2, 70000), (5, 66000), (2, 98304)):
            ck.guard('preset%d/%d' % (preset, n), preset_run, ck, preset, n)


def mono_of(M, ch, name='A'):
    arr = ArrSym(name, M.tid('i16'))

    def mono(i):
        s = ZERO
        for c in range(ch):
            s = s + M.I.select(arr, i * ch + c, Ctx())
        return s if ch == 1 else T.idiv(s, C(ch), True)
    return mono


def small_run(ck, fr, ov, ch, n):
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 80
    st = small(M, frame=fr, overlap=ov, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(11025), C(ch))
    st = M.consume(st, M.samples(st, 'A', C(n * ch)))
    st = M.finish(st)
    report(ck, 'small/%d-%d-%d/n%d' % (fr, ov, ch, n), M, st, mono_of(M, ch), fr, ov, n)


def preset_run(ck, preset, n):
    from ref import PRESETS
    R = PRESETS[preset]
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    st = M.started(preset)
    st = M.consume(st, M.samples(st, 'A', C(n)))
    st = M.finish(st)
    report(ck, 'preset%d/n%d' % (preset, n), M, st, mono_of(M, 1), R['frame'], R['overlap'], n)


def edge_run(ck, n, d):
    step = 8000
    fr = n % step + step
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    M.I.unroll = 120
    st = small(M, frame=fr, overlap=fr - step, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(11025), C(1))
    st = M.consume(st, M.samples(st, 'A', C(n + d)))
    st = M.finish(st)
    report(ck, 'buffer edge/%d%+d' % (n, d), M, st, mono_of(M, 1), fr, fr - step, n + d)


def report(ck, key, M, st, mono, fr, ov, n, env=None, names=('A',)):
    envs = envs_for(names, env)
    if st is None:
        ck.bad(key + '/returns', 'the pipeline never returns')
        return
    panic_events(ck, key, M, 0, envs)
    log = fft_log(M)
    if any(e['loops'] for e in log) or M.I.quiet:
        ck.unk(key + '/count', 'transforms inside a summarised loop')
        return
    want = frame_count(n, fr, ov)
    sure = [e for e in log if st.ctx().simplify(e['pc']) is TRUE or e['pc'] is TRUE]
    if len(sure) == len(log):
        ck.decide(key + '/count', len(log) == want, '%d transforms for %d mono samples, specification %d' % (len(log), n, want))
    else:
        r = None
        for mk in envs:
            ev = mk()
            try:
                c = sum(1 for e in log if ev.bdd(e['pc']))
            except (Unknown, OverflowError):
                continue
            if c != want:
                r = ('neq', dict(ev.env), c, want)
        verdict(ck, key + '/count', r, 'number of transforms')
        return
    for k, l in enumerate(log[:want]):
        check_frame(ck, '%s/frame%d' % (key, k), M, l, k, mono, fr, fr - ov, st, envs)
    ck.scope['frames compared'] = ck.scope.get('frames compared', 0) + len(log)
    ck.scope['functions analysed'] = sorted(set(ck.scope.get('functions analysed', [])) | M.I.stats['functions'] if M.I.stats['functions'] and isinstance(next(iter(M.I.stats['functions'])), str) else [])
