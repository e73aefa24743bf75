"""downmix: mono sample = truncated mean of the channels, without overflow"""
from specs import *


def run(ck):
    ck.rule = ('abstract interpretation of start/consume with symbolic samples for 1..8, 33 and 255 channels and for a symbolic channel count in '
               '[3, 2^31): mono sample j at the FFT boundary must be trunc((x[j*c]+..+x[j*c+c-1])/c) and every overflow, conversion and bounds '
               'check on the way must be unreachable')
    ck.assumptions = ['real arithmetic up to 1e-9 relative rounding of literals']
    for ch in (1, 2, 3, 4, 5, 6, 7, 8, 33) + ((64, 128, 255) if ck.thorough else ()):
        ck.guard('ch%d' % ch, fixed_ch, ck, ch)
    ck.guard('any', any_ch, ck)
    ck.guard('misaligned', misaligned, ck)


def extreme(k):
    def f(i, proj):
        r = random.Random('%s/%s' % (k, i))
        return (-32768, 32767, -1, r.choice((-32768, 32767)), r.randint(-3, 3), r.randint(-32768, 32767))[k]
    return f


def envs(extra=None):
    out = []
    for k in range(6):
        def mk(k=k):
            e = Ev(dict(extra or {}))
            e.arr['A'] = extreme(k)
            return e
        out.append(mk)
    return out


def fixed_ch(ck, ch):
    from checks.c08 import mono_of
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(11025), C(ch))
    st = M.consume(st, M.samples(st, 'A', C(8 * ch)))
    st = M.finish(st) if st else None
    finish(ck, 'ch%d' % ch, M, st, mono_of(M, ch), envs())


def finish(ck, key, M, st, mono, es):
    n = panic_events(ck, key, M, 0, es)
    if st is None:
        ck.bad(key + '/returns', 'never returns')
        return
    if n:
        ck.unk(key + '/checks', '%d runtime checks not discharged' % n)
    else:
        ck.ok(key + '/checks', 'all overflow, conversion and bounds checks discharged')
    log = fft_log(M)
    ck.decide(key + '/count', len(log) == 1, '%d transforms for 8 mono samples with frame size 8' % len(log))
    if log:
        check_frame(ck, key, M, log[0], 0, mono, 8, 4, st, es, 'mono sample is the truncated mean of the channels')


def any_ch(ck):
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
    c = sym('c', U32, 3, (1 << 31) - 1)
    st, r = M.start(st, C(11025), c)
    st = M.consume(st, M.samples(st, 'A', C(8) * c))
    st = M.finish(st) if st else None
    arr = ArrSym('A', M.tid('i16'))
    k = sym('ck', USIZE, 0)

    def mono(i):
        return T.idiv(T.mksum(k, c, M.I.select(arr, i * c + k, Ctx())), c, True)
    es = [m for ch in (3, 4, 5, 7, 40, 300) for m in envs({'c': ch})]
    finish(ck, 'any', M, st, mono, es)


def misaligned(ck):
    """a buffer that does not hold whole frames is refused instead of shifting the channels"""
    for ch, n in ((2, 5), (3, 7), (6, 20)):
        M = rubato_contract(fft_boundary(Model(ck), zero=True))
        st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
        st, r = M.start(st, C(11025), C(ch))
        st = M.consume(st, M.samples(st, 'A', C(n)))
        ck.decide('misaligned/ch%d' % ch, st is None, 'consume of %d samples with %d channels panics' % (n, ch))
