"""spectrum to pitch classes"""
import math
from specs import *


def run(ck):
    ck.rule = ('abstract interpretation of the pipeline with symbolic transform outputs: the twelve values handed on by the first stage after the spectrum are, coefficient by coefficient, the sums the '
               'pitch-class rule prescribes for every bin, for every preset and for other frame sizes, with and without interpolation')
    ck.assumptions = ['real arithmetic up to 1e-9 relative; the logarithm of the bin frequency is evaluated in double precision', 'the transform is given by its output']
    for fr, ov in ((8, 4), (12, 6), (64, 32), (100, 10), (256, 64), (1024, 512), (1500, 700)):
        for interp in (False, True):
            ck.guard('frame%d/interp%d' % (fr, interp), one, ck, 'frame%d/interp%d' % (fr, interp), fr, ov, interp, None)
    for n in (1, 2, 3, 4, 5):
        ck.guard('preset%d' % n, one, ck, 'preset%d' % n, None, None, n == 3, n)
    ck.guard('second', second, ck)


def bins(frame, rate=11025):
    """bin -> (class, fraction)"""
    lo = max(1, int(math.floor(frame * 28 / rate + 0.5)))
    hi = min(frame // 2, int(math.floor(frame * 3520 / rate + 0.5)))
    out = {}
    for i in range(lo, hi):
        note = 12 * math.log2(i * rate / frame / 27.5)
        note -= 12 * math.floor(note / 12)
        out[i] = (int(math.floor(note)) % 12, note - math.floor(note))
    return out


def weights(frame, interp):
    """pitch class -> {bin: weight}"""
    w = [dict() for k in range(12)]
    for i, (n, f) in bins(frame).items():
        if not interp or f == 0.5:
            w[n][i] = 1.0
        elif f < 0.5:
            w[n][i] = 0.5 + f
            w[(n + 11) % 12][i] = 0.5 - f
        else:
            w[n][i] = 1.5 - f
            w[(n + 1) % 12][i] = f - 0.5
    return w


def run_frames(ck, frame, overlap, interp, preset, nframes=1):
    M = fft_boundary(Model(ck))
    log = stages(M, cut=lambda r: r['n'] == 12)
    M.I.unroll = 12000
    if preset:
        from ref import PRESETS
        frame, overlap = PRESETS[preset]['frame'], PRESETS[preset]['overlap']
        st = M.new(preset)
    else:
        st, c = small_config(M, None, frame=frame, overlap=overlap, ncoef=2, classifiers=(9,))
        st, c = M.run(CFGP + 'with_interpolation', [c, T.TRUE if interp else T.FALSE], st)
        st.mem[('cfg',)] = c
        st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
        st.mem[('fp',)] = f
    st, r = M.start(st, C(11025), C(1))
    n = frame + (nframes - 1) * (frame - overlap)
    st.mem[('data', 'A')] = SeqV(ArrSym('A', M.tid('i16')), C(n))
    st = M.consume(st, Ref(('data', 'A'), (), (ZERO, C(n))))
    st = M.finish(st)
    return M, st, log, frame


def judge(ck, key, M, st, log, frame, interp, k):
    if any(r['quiet'] for r in log):
        ck.unk(key, 'the spectrum is consumed in a summarised loop')
        return
    vs = [r for r in log if r['n'] == 12 and r['at'] == k + 1]
    if len(fft_log(M)) <= k:
        ck.unk(key, 'no transform')
        return
    if len(vs) != 1:
        ck.unk(key, '%d vectors of twelve after transform %d' % (len(vs), k))
        return
    e = vs[0]
    F = ArrSym('F%d' % k, M.tid_complex())
    W = weights(frame, interp)
    envs = envs_for(('F%d' % k,), None)
    for c in range(12):
        got = M.I.select(e['v'].arr, C(c), Ctx(e['pc'], e['assume']))
        spec = ZERO
        terms = []
        for i, w in W[c].items():
            x = M.I.select(F, C(i), st.ctx())
            terms.append((i, w, x))
        spec = total([T.fconst(w) * (x.f[0] * x.f[0] + x.f[1] * x.f[1]) for i, w, x in terms])
        r = prove_eq(got, spec, e['pc'], e['assume'])
        if r is not True:
            r = linear(M, got, terms, frame, F, st)
        verdict(ck, '%s/class%d' % (key, c), r, 'the sum over the bins of the class (%d bins)' % len(terms))
        if r is not True and r is not None:
            return
    ck.scope['bins assigned'] = ck.scope.get('bins assigned', 0) + len(bins(frame))


def total(xs):
    if not xs:
        return ZERO
    while len(xs) > 1:
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    return xs[0]


def linear(M, got, terms, frame, F, st):
    """evaluate at spectra with energy in a few bins only: a difference is a counterexample"""
    want = {i: w for i, w, x in terms}
    pts = sorted({0, 1, 2, 3, frame // 2 - 1, *bins(frame)})
    step = max(1, len(pts) // 400)
    for sub in [pts[j::step] for j in range(min(step, 3))] + [[p] for p in (pts[:6] + pts[-6:])]:
        for b in (sub if len(sub) <= 400 else sub[:400]):
            ev = Ev({}, {F.name: lambda i, proj, b=b: (3.0 if proj and str(proj[0]) in ('re', '0') else 4.0) if i == b else 0.0})
            try:
                v = ev.val(got)
            except (Unknown, OverflowError):
                return None
            if not close(v, 25.0 * want.get(b, 0.0), 1e-7):
                return ('neq', {'energy in bin': b}, v, 25.0 * want.get(b, 0.0))
    return None


def one(ck, key, frame, overlap, interp, preset):
    M, st, log, frame = run_frames(ck, frame, overlap, interp, preset)
    panic_events(ck, key, M, 0, envs_for(('A',), None))
    judge(ck, key, M, st, log, frame, interp, 0)


def second(ck):
    """a later spectrum is mapped the same way: nothing of the earlier one remains"""
    for interp in (False, True):
        M, st, log, frame = run_frames(ck, 64, 32, interp, None, 3)
        for k in (1, 2):
            judge(ck, 'later/interp%d/%d' % (interp, k), M, st, log, frame, interp, k)
