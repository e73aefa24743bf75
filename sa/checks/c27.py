"""streams at another rate go through a 11025/rate resampler without loss"""
from specs import *
from checks.c08 import mono_of
from checks.c09 import pieces, label


def run(ck):
    ck.rule = ('abstract interpretation with the resampler as a contract (chunk size, buffer lengths, arbitrary output of scripted lengths): it is created with ratio 11025/rate and one channel for every '
               'rate but 11025 and never at 11025; the concatenation of the input chunks it is given equals the mono stream/32767, complete after finish and in order, for every cut of the stream; every '
               'frame it returns reaches the transform, in order, and nothing else does; no call violates its documented preconditions')
    ck.assumptions = ['rubato: SincFixedIn consumes exactly its chunk size per call, and set_chunk_size accepts 1 to the maximum', 'the number of frames it returns per call is scripted']
    ck.guard('created', created, ck)
    B = 32768
    for ch, rate, n, cuts in ((1, 44100, 0, ()), (1, 44100, 1, ()), (1, 44100, 1000, (0, 1, 999)), (1, 8000, B - 1, ()), (1, 44100, B, ()), (1, 44100, B + 1, (B,)), (1, 44100, B + 1, (1,)),
                              (1, 48000, 2 * B, (B - 1, B + 1)), (1, 22050, 2 * B + 5, (B + 2, 2 * B)), (1, 44100, 3 * B - 1, (5, B - 1, 2 * B)), (1, 44100, B - 1, tuple(range(4096, B - 1, 4096))),
                              (2, 44100, B - 1, (B - 2,)), (2, 44100, B, (B - 1,)), (2, 44100, 2 * B + 1, (B - 1, B)), (3, 96000, B + 7, (3, B - 1)), (2, 8000, 700, (0, 300, 301)),
                              (6, 48000, B - 1, (B // 2,)), (2, 44100, B + B // 2, tuple(range(1152, B + B // 2, 1152)))):
        ck.guard('stream/ch%d/n%d' % (ch, n), stream, ck, ch, rate, n, cuts)
    ck.guard('restart', restart, ck)


def made(M):
    return [e for e in M.rs_calls if e['what'] == 'new']


def created(ck):
    M = fft_boundary(resampler_boundary(Model(ck)), zero=True)
    st = M.new(2)
    rate, ch = sym('rate', U32, 1001, (1 << 32) - 1), sym('ch', U32, 1, 1 << 20)
    st, r = M.start(st, rate, ch)
    calls = made(M)
    envs = envs_for(('rate', 'ch'), [{'rate': a, 'ch': b} for a in (1001, 8000, 11024, 11025, 11026, 22050, 44100, 48000, 192000, (1 << 32) - 1) for b in (1, 2, 3)])
    key = 'created/any rate'
    # exactly one when rate != 11025, none otherwise
    odd = [e for e in M.rs_calls if e['what'].startswith('?')]
    if odd:
        ck.unk(key, 'unknown resampler call ' + odd[0]['what'])
        return
    bad = None
    for mk in envs:
        ev = mk()
        try:
            n = sum(1 for e in calls if ev.bdd(e['pc']))
        except (Unknown, OverflowError):
            continue
        if n != (0 if ev.env['rate'] == 11025 else 1):
            bad = (ev.env['rate'], n)
    if bad:
        ck.bad(key + '/count', 'rate %d creates %d resamplers' % bad)
        return
    eq11 = eq(rate, C(11025))
    c = st.ctx()
    if len(calls) == 1 and c.simplify(band(calls[0]['pc'], eq11)) is FALSE and c.simplify(bnot(bor(calls[0]['pc'], eq11))) is FALSE:
        ck.ok(key + '/count', 'one resampler exactly when the rate is not 11025')
    else:
        ck.unk(key + '/count', 'guard of the creation not decided: %s' % str(calls[0]['pc'])[:200] if calls else 'none')
    for e in calls:
        a = e['args']
        spec = T.fdiv(C(11025), rate)
        r = prove_eq(a[0], spec, e['pc'], e['assume'])
        if r is not True:
            r = witness(a[0], spec, [mk for mk in envs], e['pc'], e['assume'])
        verdict(ck, key + '/ratio', r, 'the ratio is 11025 / rate')
        verdict(ck, key + '/channels', True if a[4] == ONE else witness(a[4], ONE, envs, e['pc'], e['assume']), 'the resampler has one channel')


def stream(ck, ch, rate, n, cuts):
    W = (9, 0, 7, 16, 1)
    M = fft_boundary(resampler_boundary(Model(ck), W), zero=True)
    M.I.unroll = 120
    st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(rate), C(ch))
    st = pieces(M, st, 'A', n, ch, cuts)
    st = M.finish(st) if st else None
    judge(ck, 'stream/ch%d/rate%d/n%d/%s' % (ch, rate, n, label(cuts)), M, st, ch, n, W)


def judge(ck, key, M, st, ch, n, W, name='A', first=0, frames=0):
    envs = envs_for((name,), None)
    odd = [e for e in M.rs_calls if e['what'].startswith('?')]
    if odd or M.I.quiet:
        ck.unk(key, 'unknown resampler call %s' % (odd[0]['what'] if odd else 'in a summarised loop'))
        return
    panic_events(ck, key, M, 0, envs)
    for e in M.rs_calls:
        if e.get('good') is False:
            ck.bad(key + '/contract', '%s at %s is called with %s' % (e['what'], M.p.span(e['span']), e.get('why') or 'chunk size %s' % e.get('n')))
            return
    if st is None:
        ck.bad(key + '/returns', 'the pipeline never returns')
        return
    calls = [e for e in M.rs_calls if e['what'] == 'process_into_buffer'][first:]
    if any(e['pc'] is not TRUE and st.ctx().simplify(e['pc']) is not TRUE for e in calls):
        ck.unk(key + '/calls', 'conditional calls')
        return
    total = sum(int(e['n'].cval()) for e in calls)
    ck.decide(key + '/complete', total == n, '%d of %d mono samples are handed to the resampler' % (total, n))
    base = 0
    mono = mono_of(M, ch, name)
    for j, e in enumerate(calls):
        m = int(e['n'].cval())
        if base + m > n:
            break
        i = sym('fi', USIZE, 0, m - 1) if m > 1 else ZERO
        got = M.I.select(e['input'].arr, i, Ctx(e['pc'], e['assume']))
        spec = mono(C(base) + i) * T.fconst(1 / 32767.0)
        r = prove_eq(got, spec, e['pc'], e['assume'])
        if r is not True:
            ee = []
            for mk in envs:
                for x in sorted({0, 1, m - 1, m - 2, m // 2, 32767 - base % 32768, 32768 - base % 32768, *range(0, m, max(1, m // 30))}):
                    if 0 <= x < m:
                        def m2(mk=mk, x=x):
                            v = mk()
                            v.env.setdefault('fi', x)
                            return v
                        ee.append(m2)
            r = witness(got, spec, ee, e['pc'], e['assume'])
        verdict(ck, '%s/input%d' % (key, j), r, 'input chunk %d is samples %d to %d of the mono stream / 32767' % (j, base, base + m - 1))
        base += m
    # what reaches the transform: the concatenation of the outputs
    out = []
    for e in calls:
        R = ArrSym('R%d' % e['k'], M.tid('f64'))
        out += [M.I.select(R, C(x), st.ctx()) for x in range(e['w'])]
    log = fft_log(M)[frames:]
    want = frame_count(len(out), 8, 4)
    ck.decide(key + '/frames', len(log) == want, '%d transforms for %d resampled frames, expected %d' % (len(log), len(out), want))
    for k, l in enumerate(log[:want]):
        check_frame(ck, '%s/frame%d' % (key, k), M, l, k, lambda i: out[int(i.cval())] * T.fconst(32767.0), 8, 4, st, envs, 'the transform sees the resampled stream')
    ck.scope['resampler calls compared'] = ck.scope.get('resampler calls compared', 0) + len(calls)


def restart(ck):
    """a second stream at another rate has its own resampler, and one at 11025 has none"""
    W = (9, 8, 7, 16, 1)
    for second in (22050, 11025, 44100):
        M = fft_boundary(resampler_boundary(Model(ck), W), zero=True)
        M.I.unroll = 120
        st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
        st, r = M.start(st, C(44100), C(1))
        st = pieces(M, st, 'A', 32768 + 300, 1, (7,))
        st, r = M.start(st, C(second), C(1))
        done = len(M.rs_calls)
        frames = len(fft_log(M))
        st = pieces(M, st, 'B', 300, 1, (9,))
        st = M.finish(st)
        calls = [e for e in M.rs_calls[done:] if e['what'] == 'process_into_buffer']
        before = [e for e in M.rs_calls[:done] if e['what'] == 'process_into_buffer']
        key = 'restart/%d' % second
        if [e for e in M.rs_calls if e['what'].startswith('?')] or M.I.quiet:
            ck.unk(key, 'unknown resampler call')
            continue
        if st is None:
            ck.bad(key, 'the second stream never ends')
            continue
        if second == 11025:
            ck.decide(key, not calls, 'a stream at 11025 Hz after one at 44100 Hz makes %d resampler calls' % len(calls))
            continue
        rates = [e['args'][0] for e in made(M)]
        fresh = all(int(e['gen'].cval()) > max([int(x['gen'].cval()) for x in before] or [0]) for e in calls)
        ck.decide(key + '/fresh', fresh, 'a stream at %d Hz after an unfinished one at 44100 Hz %s' % (second, 'starts with an unused resampler' if fresh else 'continues the resampler of the stream before'))
        if second != 44100:
            ck.decide(key + '/rate', len(rates) == 2 and prove_eq(rates[1], T.fdiv(C(11025), C(second))) is True, 'a stream at %d Hz after one at 44100 Hz uses a resampler for its own rate' % second)
        judge(ck, key, M, st, 1, 300, W, 'B', len(before), frames)
