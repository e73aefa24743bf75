"""every configuration setting reaches the computation"""
import itertools
from calc import *
from checks.c08 import mono_of
from checks.c12 import chain, feed, judge_smooth
from checks.c06 import word


back = []


def run(ck):
    back.clear()
    ck.rule = ('abstract interpretation of the builder followed by the pipeline: configurations built from any preset by the setters in different orders, with setters repeated, are the same value; the transforms '
               'see frames of the set size and overlap, the chroma vectors follow the set interpolation, the smoothed vectors the set (symbolic) coefficients, the words the set classifiers in '
               'their order; a transform of digital silence must be influenced by the silence setting')
    ck.assumptions = ['real arithmetic up to 1e-9 relative', 'the transform is given by its output']
    for b in range(1, 6):
        ck.guard('orders/%d' % b, orders, ck, b)
    for b, y in list(back)[:8]:
        ck.guard('again/%d/%s' % (b, y), observed, ck, b, 16, 10, 3, True, 0, y)
    for k, (frame, ov, nc, interp) in enumerate(((16, 10, 3, True), (12, 6, 2, False), (24, 8, 1, True), (11, 10, 4, False), (9, 0, 2, True))):
        for b in ((3, 5) if k else (1, 2, 3, 4, 5)):
            ck.guard('observed/%d/%d' % (k, b), observed, ck, b, frame, ov, nc, interp, k)
    ck.guard('classifiers', word, ck, 'classifiers', [(j % 6, j % 4, 1 + j % 5, 1 + (3 * j) % 5) for j in range(7)], 7)
    ck.guard('classifiers/order', word, ck, 'classifiers/order', [(0, (5 * j) % 12, 1, 1 + j % 3) for j in range(16)], 4)
    for p in range(1, 6):
        ck.guard('framing/preset%d' % p, framing, ck, p)
    ck.guard('silence', silence, ck)


def base(M, n):
    st, c = M.preset(n)
    cl = template(M)
    return st, c, cl


def setters(M, cl, frame, ov, nc, interp, cs=(9, 13), sil=None):
    co = [sym('c%d' % j, ('f', 64)) for j in range(nc)]
    sel = [cl[i] for i in cs]
    r = [('with_id', [C(9)]), ('with_frame_size', [C(frame)]), ('with_frame_overlap', [C(ov)]), ('with_coefficients', [SeqV(ArrList(co), C(nc))]), ('with_classifiers', [SeqV(ArrList(sel), C(len(sel)))]),
         ('with_interpolation', [TRUE if interp else FALSE])]
    if sil is not None:
        r.append(('with_removed_silence', [C(sil)]))
    return co, r


def build(M, st, c, calls):
    for name, args in calls:
        st, c = M.run(CFGP + name, [c] + list(args), st)
    return st, c


def perms(r, b):
    n = len(r)
    out = [list(range(n)), list(range(n))[::-1]]
    for k in range(1, n):
        out.append([(i * (k + b) + k) % n for i in range(n)] if math.gcd(k + b, n) == 1 else list(range(k, n)) + list(range(k)))
    return out


def orders(ck, b):
    M = Model(ck)
    st, c0, cl = base(M, b)
    co, r = setters(M, cl, 16, 10, 3, True, sil=7)
    ref = None
    other = dict(setters(M, cl, 14, 3, 5, False, (1, 2, 3), sil=80)[1])
    for twice in (False, True):
        for pm in perms(r, b):
            calls = [r[i] for i in pm]
            if twice:
                calls = [(nm, other[nm]) for nm, a in calls] + calls[::-1]
            s2, c = build(M, st.fork(), c0, calls)
            if ref is None:
                ref = c
                continue
            key = 'orders/%d/%s%s' % (b, '-'.join(map(str, pm)), '/twice' if twice else '')
            if c == ref or not leaves_differ(M, s2, c, ref):
                ck.ok(key, 'the same configuration for every order of the setters')
            else:
                d = leaves_differ(M, s2, c, ref)
                ck.unk(key, 'fields differ: %s' % ', '.join('.'.join(p) for p, x, y in d)[:200])
    fin = dict(r)
    odd = dict(setters(M, cl, 6, 3, 5, False, (1, 2, 3), sil=80)[1])
    for y in fin:
        # every setting made, then one of them changed and changed back
        s2, c = build(M, st.fork(), c0, r + [(y, odd[y]), (y, fin[y])])
        key = 'orders/%d/again %s' % (b, y)
        d = leaves_differ(M, s2, c, ref)
        if not d:
            ck.ok(key, 'changing one setting and back leaves the others')
        else:
            ck.unk(key, 'fields differ: %s' % ', '.join('.'.join(p) for p, x, z in d)[:200])
            back.append((b, y))
    ck.scope['setter sequences'] = ck.scope.get('setter sequences', 0) + 2 * len(perms(r, b))


def observed(ck, b, frame, ov, nc, interp, k, y=None):
    """frames, chroma vectors and smoothing of a configuration built in some order on top of a preset"""
    key = 'observed/%d-%d-%d-%s/preset%d' % (frame, ov, nc, 'interpolated' if interp else 'plain', b) + ('/again ' + y if y else '')
    M = fft_boundary(Model(ck))
    log = []
    log = stages(M, cut=lambda r: r['n'] == 12 and len(chain(M, log)) >= 3 and r['stage'] == chain(M, log)[2])
    M.I.unroll = 400
    st, c, cl = base(M, b)
    co, r = setters(M, cl, frame, ov, nc, interp)
    other = dict(setters(M, cl, frame + 5, 2, nc + 1, not interp, (1, 2, 3))[1])
    pm = perms(r, b + k)[(b + k) % 5]
    calls = [(r[i][0], other[r[i][0]]) for i in pm[::2]] + [r[i] for i in pm]
    if y:
        calls = r + [(y, dict(setters(M, cl, 6, 3, 5, False, (1, 2, 3), sil=80)[1])[y])] + ([(y, dict(r)[y])] if y in dict(r) else [])
    st, c = build(M, st, c, calls)
    st.mem[('cfg',)] = c
    wid = max(int(dict((p[-1][0], v) for p, v in walk(M, cl[i]))['width'].cval()) for i in (9, 13))
    s2, d = M.run(CFGP + 'delay', [Ref(('cfg',))], st.fork())
    ck.decide(key + '/delay', d == C((nc - 1 + wid - 1) * (frame - ov) + ov), 'delay of the configuration is %s, expected %d' % (d, (nc - 1 + wid - 1) * (frame - ov) + ov))
    st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
    st.mem[('fp',)] = f
    st, x = M.start(st, C(11025), C(1))
    nframes = nc + 2
    st = feed(M, st, frame, ov, nframes)
    if st is None:
        ck.bad(key + '/returns', 'the pipeline never returns')
        return
    lg = fft_log(M)
    envs = envs_for(('A',))
    panic_events(ck, key, M, 0, envs)
    if M.I.quiet or any(e['loops'] or e['pc'] is not TRUE and st.ctx().simplify(e['pc']) is not TRUE for e in lg):
        ck.unk(key + '/frames', 'conditional transforms')
        return
    ck.decide(key + '/frames', len(lg) == nframes, '%d transforms, expected %d for frames of %d overlapping by %d' % (len(lg), nframes, frame, ov))
    for i, l in enumerate(lg[:nframes]):
        check_frame(ck, '%s/frame%d' % (key, i), M, l, i, mono_of(M, 1), frame, frame - ov, st, envs, 'frames of the set size and overlap')
    judge_smooth(ck, key, M, st, log, nc, co, frame, nframes, 0, 0, interp)


def framing(ck, p):
    """setting the frame size and overlap of a preset, both orders"""
    for frame, ov, swap in ((1000, 600, False), (1000, 600, True), (5000, 10, True)):
        M = fft_boundary(Model(ck), zero=True)
        M.I.unroll = 120
        st, c = M.preset(p)
        calls = [('with_frame_size', [C(frame)]), ('with_frame_overlap', [C(ov)])]
        st, c = build(M, st, c, calls[::-1] if swap else calls)
        st.mem[('cfg',)] = c
        st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
        st.mem[('fp',)] = f
        st, x = M.start(st, C(11025), C(1))
        n = frame + 2 * (frame - ov) - 1
        st = M.consume(st, M.samples(st, 'A', C(n)))
        st = M.finish(st) if st is not None else None
        from checks.c08 import report
        report(ck, 'framing/preset%d/%d-%d%s' % (p, frame, ov, '/swapped' if swap else ''), M, st, mono_of(M, 1), frame, ov, n)


def silence(ck):
    """with removal on, samples that are digital silence do not reach the transform; the threshold decides what is silence"""
    frame, ov = 16, 10
    res = {}
    for on, thr, level in ((False, None, 0), (True, 50, 0), (True, 50, 20), (True, 0, 20), (True, 50, 2000)):
        M = fft_boundary(Model(ck), zero=True)
        M.I.unroll = 400
        st, c, cl = base(M, 2)
        co, r = setters(M, cl, frame, ov, 2, False, sil=thr)
        st, c = build(M, st, c, [x for x in r if x[0] != 'with_coefficients'] + [('with_coefficients', [SeqV(ArrList([T.fconst(0.5)] * 2), C(2))])])
        st.mem[('cfg',)] = c
        st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
        st.mem[('fp',)] = f
        st, x = M.start(st, C(11025), C(1))
        n = 400
        st = M.consume(st, M.slice(st, 'Z', ArrFill(C(level)), C(n)))
        st = M.finish(st) if st is not None else None
        if st is None:
            ck.bad('silence/returns', 'the pipeline never returns')
            return
        log = fft_log(M)
        if any(st.ctx().simplify(e['pc']) is not TRUE for e in log if e['pc'] is not TRUE):
            ck.unk('silence', 'conditional transforms')
            return
        res[on, thr, level] = len(log)
    full = frame_count(400, frame, ov)
    ck.decide('silence/off', res[False, None, 0] == full, 'with removal off all %d frames of a silent stream are transformed (%d)' % (full, res[False, None, 0]))
    ck.decide('silence/loud', res[True, 50, 2000] == full, 'a stream above the threshold is transformed completely: %d of %d' % (res[True, 50, 2000], full))
    ck.decide('silence/removed', res[True, 50, 0] < full, 'with removal on %d of %d frames of a stream of digital silence are transformed' % (res[True, 50, 0], full))
    ck.decide('silence/threshold', res[True, 50, 20] != res[True, 0, 20], 'samples of level 20 give %d transforms with threshold 50 and %d with threshold 0' % (res[True, 50, 20], res[True, 0, 20]))
