"""chroma vectors are smoothed over time and normalised"""
import math
from specs import *
from checks.c11 import weights, total


def run(ck):
    ck.rule = ('abstract interpretation of the pipeline with symbolic transform outputs and symbolic filter coefficients: the vector that reaches the last stage after transform k is '
               'the coefficient-weighted sum of the last ncoef chroma vectors, oldest first, divided by its Euclidean norm (zeros below 0.01), and exists exactly from k = ncoef - 1 on; after a restart as well')
    ck.assumptions = ['real arithmetic up to 1e-9 relative', 'the transform is given by its output', 'up to 8 coefficients, the documented size of the filter']
    for n in range(1, 9):
        ck.guard('smooth/ncoef%d' % n, smooth, ck, n, 12 + n)
    ck.guard('norm', norm, ck)
    ck.guard('restart', restart, ck)
    for n in (1, 2, 3, 4, 5):
        ck.guard('preset%d' % n, preset, ck, n)


def chain(M, log):
    """stages in the order in which they pass on twelve values"""
    out = []
    for r in log:
        if r['n'] == 12 and r['stage'] not in out:
            out.append(r['stage'])
    return out


def feed(M, st, frame, overlap, nframes, name='A'):
    n = frame + (nframes - 1) * (frame - overlap)
    st.mem[('data', name)] = SeqV(ArrSym(name, M.tid('i16')), C(n))
    st = M.consume(st, Ref(('data', name), (), (ZERO, C(n))))
    return M.finish(st)


def chroma_spec(M, k, frame, st, interp=False):
    F = ArrSym('F%d' % k, M.tid_complex())
    W = weights(frame, interp)
    out = []
    for c in range(12):
        xs = []
        for i, w in W[c].items():
            x = M.I.select(F, C(i), st.ctx())
            xs.append(T.fconst(w) * (x.f[0] * x.f[0] + x.f[1] * x.f[1]))
        out.append(total(xs))
    return out


def smooth(ck, n, frames):
    """symbolic coefficients; the vector before normalisation is found as the numerator of the vector after it"""
    key = 'smooth/ncoef%d' % n
    frame, ov = 12, 6
    co = [sym('c%d' % j, ('f', 64)) for j in range(n)]
    M = fft_boundary(Model(ck))
    log = []
    log = stages(M, cut=lambda r: r['n'] == 12 and len(chain(M, log)) >= 3 and r['stage'] == chain(M, log)[2])
    M.I.unroll = 400
    st = small(M, frame=frame, overlap=ov, coefs=co, classifiers=(9,))
    st, r = M.start(st, C(11025), C(1))
    st = feed(M, st, frame, ov, frames)
    judge_smooth(ck, key, M, st, log, n, co, frame, frames, 0, 0)


def judge_smooth(ck, key, M, st, log, n, co, frame, frames, first, skip, interp=False):
    envs = envs_for(tuple('F%d' % (first + k) for k in range(frames)) , [{'c%d' % j: 0.3 * j - 0.7 for j in range(8)}, {'c%d' % j: 1.0 / (j + 1) for j in range(8)}])
    for z in (1, 2, 3):
        def silent(z=z):
            e = envs[0]()
            for k in range(frames):
                if (k + z) % 3 == 0 or z == 3 and k > n:
                    e.arr['F%d' % (first + k)] = lambda i, proj: 0.0
            return e
        envs = envs + [silent]
    names = chain(M, log)
    if len(names) < 2 or any(r['quiet'] for r in log):
        ck.unk(key, 'stages not recognised')
        return
    nfft = len(fft_log(M)) - first
    if nfft != frames:
        ck.unk(key, '%d transforms' % nfft)
        return
    # the second of the stages receives the smoothed vectors
    got = [r for r in log[skip:] if r['n'] == 12 and r['stage'] == names[1]]
    at = [r['at'] - first for r in got]
    want = list(range(n, frames + 1))
    if at != want:
        ck.bad(key + '/when', 'smoothed vectors appear after transforms %s, expected %s' % (at, want))
        return
    ck.ok(key + '/when', 'one smoothed vector after each transform from number %d on' % n)
    spec = [chroma_spec(M, first + k, frame, st, interp) for k in range(frames)]
    for r in got:
        k = r['at'] - first - 1
        for c in range(12):
            s = total([co[j] * spec[k - n + 1 + j][c] for j in range(n)])
            g = M.I.select(r['v'].arr, C(c), Ctx(r['pc'], r['assume']))
            x = prove_eq(g, s, r['pc'], r['assume'])
            if x is not True:
                x = witness(g, s, envs, r['pc'], r['assume'])
            verdict(ck, '%s/frame%d/class%d' % (key, k, c), x, 'coefficient-weighted sum of the last %d chroma vectors, oldest first' % n)
            if x is not True and x is not None:
                return
    ck.scope['smoothed vectors'] = ck.scope.get('smoothed vectors', 0) + len(got)


def norm(ck, eps=0.01):
    """the last but one stage on twelve symbols"""
    key = 'norm'
    frame, ov = 12, 6
    M = fft_boundary(Model(ck), zero=True)
    X = ArrSym('X', M.tid('f64'))

    def replace(r, st):
        c = chain(M, log)
        if r['n'] == 12 and len(c) >= 2 and r['stage'] == c[1]:
            st.mem[('data', 'X')] = SeqV(X, C(12))
            return Ref(('data', 'X'), (), (ZERO, C(12)))
        return None
    log = []
    log = stages(M, cut=lambda r: r['n'] == 12 and len(chain(M, log)) >= 3 and r['stage'] == chain(M, log)[2], replace=replace)
    M.I.unroll = 400
    st = small(M, frame=frame, overlap=ov, ncoef=1, classifiers=(9,))
    st, r = M.start(st, C(11025), C(1))
    st = feed(M, st, frame, ov, 2)
    names = chain(M, log)
    if len(names) != 3 or any(r['quiet'] for r in log):
        ck.unk(key, 'stages not recognised')
        return
    got = [r for r in log if r['n'] == 12 and r['stage'] == names[2]]
    if len(got) != 2:
        ck.bad(key + '/when', '%d normalised vectors after two transforms with one coefficient' % len(got))
        return
    x = [M.I.select(X, C(c), st.ctx()) for c in range(12)]
    root = T.op('sqrt', (total([v * v for v in x]),), ('f', 64), 0, None)
    cond = T.flt0(root - T.fconst(eps))
    envs = []
    for seed in range(60):
        def mk(seed=seed):
            import random
            rr = random.Random(seed)
            amp = 10 ** rr.uniform(-6, 3) if seed % 3 else 10 ** rr.uniform(-2.6, -2.4)
            sparse = seed % 4 == 1
            v = [0.0 if sparse and i != seed % 12 else random.Random('%s/%s' % (seed, i)).uniform(-1, 1) * amp for i in range(12)]
            if seed % 5 == 2:
                n = math.sqrt(sum(e * e for e in v)) or 1.0
                t = eps * (1 + rr.choice((-1, 1)) * rr.choice((1e-3, 0.1, 0.4, 0.9)))
                v = [e * t / n for e in v]
            e = Ev({}, seed=seed)
            e.arr['X'] = lambda i, proj: v[int(i)]
            return e
        envs.append(mk)
    for n, r in enumerate(got):
        for c in range(12):
            g = M.I.select(r['v'].arr, C(c), Ctx(r['pc'], r['assume']))
            s = ite(cond, ZERO, T.fdiv(x[c], root))
            y = prove_eq(g, s, r['pc'], r['assume'])
            if y is not True:
                y = witness(g, s, envs, r['pc'], r['assume'])
            verdict(ck, '%s/%d/component%d' % (key, n, c), y, 'zero below norm 0.01, otherwise divided by the norm')
            if y is not True and y is not None:
                return
    panic_events(ck, key, M, 0, envs)


def restart(ck):
    """after a restart in the middle of warming up the window starts empty"""
    for n, before in ((3, 1), (3, 2), (5, 7), (8, 12)):
        key = 'restart/ncoef%d/after%d' % (n, before)
        frame, ov = 12, 6
        co = [sym('c%d' % j, ('f', 64)) for j in range(n)]
        M = fft_boundary(Model(ck))
        log = []
        log = stages(M, cut=lambda r: r['n'] == 12 and len(chain(M, log)) >= 3 and r['stage'] == chain(M, log)[2])
        M.I.unroll = 400
        st = small(M, frame=frame, overlap=ov, coefs=co, classifiers=(9,))
        st, r = M.start(st, C(11025), C(1))
        st = feed(M, st, frame, ov, before)
        st, r = M.start(st, C(11025), C(1))
        first, skip = len(fft_log(M)), len(log)
        frames = n + 2
        st = feed(M, st, frame, ov, frames, 'B')
        judge_smooth(ck, key, M, st, log, n, co, frame, frames, first, skip)


def preset(ck, n):
    """the smoothed vectors of the presets use their own coefficients"""
    from ref import PRESETS, COEFS
    R = PRESETS[n]
    key = 'preset%d' % n
    co = list(COEFS)
    M = fft_boundary(Model(ck), zero=True)
    k = [0]

    def replace(r, st):
        c = chain(M, log)
        if r['n'] == 12 and r['stage'] == c[0]:
            nm = 'X%d' % k[0]
            k[0] += 1
            st.mem[('data', nm)] = SeqV(ArrSym(nm, M.tid('f64')), C(12))
            return Ref(('data', nm), (), (ZERO, C(12)))
        return None
    log = []
    log = stages(M, cut=lambda r: r['n'] == 12 and len(chain(M, log)) >= 2 and r['stage'] == chain(M, log)[1], replace=replace)
    M.I.unroll = 120
    st = M.started(n)
    frames = len(co) + 2
    st = feed(M, st, R['frame'], R['overlap'], frames)
    names = chain(M, log)
    if len(names) != 2 or any(r['quiet'] for r in log):
        ck.unk(key, 'stages not recognised')
        return
    got = [r for r in log if r['n'] == 12 and r['stage'] == names[1]]
    if len(got) != 3:
        ck.bad(key + '/when', '%d smoothed vectors after %d transforms with %d coefficients' % (len(got), frames, len(co)))
        return
    envs = envs_for(tuple('X%d' % j for j in range(frames)), None)
    for f, r in enumerate(got):
        for c in range(12):
            g = M.I.select(r['v'].arr, C(c), Ctx(r['pc'], r['assume']))
            s = total([T.fconst(co[j]) * M.I.select(ArrSym('X%d' % (f + j), M.tid('f64')), C(c), st.ctx()) for j in range(len(co))])
            y = prove_eq(g, s, r['pc'], r['assume'])
            if y is not True:
                y = witness(g, s, envs, r['pc'], r['assume'])
            verdict(ck, '%s/%d/component%d' % (key, f, c), y, 'weighted sum with the coefficients of the preset')
            if y is not True and y is not None:
                return
