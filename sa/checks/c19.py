"""valid audio never makes the library panic"""
from calc import *
from ref import PRESETS, TABLES
from checks.c11 import run_frames

B = 32768


def run(ck):
    ck.rule = ('abstract interpretation with every index, slice, overflow, division, conversion, unwrap and assertion on the way as an obligation: loading (any channel count, all sample values), framing of '
               'each preset over sequences of start/consume/finish, spectrum folding with arbitrary spectra, smoothing, normalisation and the classifiers of each preset on arbitrary non-negative rows, and the resampled path '
               'with the documented preconditions of the resampler')
    ck.assumptions = ['rubato and rustfft do not panic when their documented preconditions hold', 'a buffer holds whole sample frames', 'row counters do not reach 2^64']
    ck.guard('new', new, ck)
    for ch in (1, 2, 3, 6, 8, 255):
        ck.guard('load/%d' % ch, load, ck, ch)
    ck.guard('load/any', load_any, ck)
    for p in sorted(PRESETS):
        ck.guard('spectrum/%d' % p, spectrum, ck, p)
        ck.guard('rows/%d' % p, classify, ck, p)
    ck.guard('vectors', vectors, ck)
    for n in (258, 515):
        ck.guard('many rows/%d' % n, many, ck, n)
    F, H = 4096, 1365
    for name, ops in (('nothing', ['finish']), ('empty', [('c', 1, 0), 'finish', ('c', 1, 0)]), ('again', [('c', 1, F - 1), 'finish', ('c', 1, 1), 'finish', 'finish', ('c', 1, H)]),
                      ('restart', [('c', 1, 5000), ('s', 11025, 2), ('c', 2, 3), 'finish', ('s', 11025, 1), ('c', 1, F), 'finish']),
                      ('refused', [('c', 1, 100), ('s', 0, 1), ('s', 11025, 0), ('s', 1000, 2), ('c', 1, F), 'finish']),
                      ('full buffer', [('c', 1, B - 1), ('c', 1, 1), ('c', 1, 1), 'finish']), ('two buffers', [('c', 1, 2 * B), 'finish']),
                      ('odd channels', [('s', 11025, 7), ('c', 7, B), 'finish', ('s', 11025, 2), ('c', 2, B + 1), 'finish'])):
        for p in (2,) if name in ('two buffers', 'odd channels') else (2, 5) if name == 'full buffer' else (1, 2, 3, 4, 5):
            ck.guard('calls/%s/%d' % (name, p), calls, ck, name, p, ops)
    for name, ops in (('nothing', [('s', 44100, 1), 'finish']), ('one', [('s', 44100, 2), ('c', 2, 1), 'finish', 'finish', ('c', 2, 1), 'finish']),
                      ('exact', [('s', 48000, 1), ('c', 1, B), 'finish']), ('more', [('s', 8000, 1), ('c', 1, B - 1), ('c', 1, 3), 'finish', ('c', 1, B), 'finish']),
                      ('switch', [('s', 48000, 3), ('c', 3, 700), ('s', 1001, 1), ('c', 1, B + 5), ('s', 11025, 1), ('c', 1, 300), 'finish', ('s', 4294967295, 2), ('c', 2, 40), 'finish'])):
        ck.guard('resampled/%s' % name, calls, ck, 'resampled/' + name, 2, ops)
    ck.guard('started with any rate', rates, ck)


def judge(ck, key, M, st, envs, since=0):
    ps = M.panics(since)
    n = panic_events(ck, key, M, since, envs)
    if st is None:
        if not any(k.startswith(key) and v == 'violated' for k, v, d in ck.obs):
            ck.bad(key + '/returns', 'no path returns: %s' % (M.where(ps[-1]) if ps else 'endless'))
    elif n:
        ck.unk(key, '%d runtime checks not discharged, first: %s' % (n, M.where(ps[0])))
    elif not ps:
        ck.ok(key, 'every runtime check on the way is discharged (%d blocks interpreted)' % getattr(M.I, 'blocks', 0))
    ck.scope['runs'] = ck.scope.get('runs', 0) + 1


def model(ck, **kw):
    M = fft_boundary(resampler_boundary(Model(ck), (9, 0, 7, 16)), zero=True, **kw)
    M.I.unroll = 130
    M.I.max_blocks = 4000000
    return M


def new(ck):
    for p in sorted(PRESETS):
        M = model(ck)
        st = M.new(p)
        judge(ck, 'new/%d' % p, M, st, [])


def load(ck, ch):
    M = model(ck)
    st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
    st, r = M.start(st, C(11025), C(ch))
    st = M.consume(st, M.samples(st, 'A', C(20 * ch)))
    st = M.finish(st) if st is not None else None
    from checks.c10 import envs
    judge(ck, 'load/%d' % ch, M, st, envs())


def load_any(ck):
    M = model(ck)
    st = small(M, frame=8, overlap=4, ncoef=8, classifiers=(9,))
    c = sym('c', U32, 3, (1 << 31) - 1)
    st, r = M.start(st, C(11025), c)
    st = M.consume(st, M.samples(st, 'A', C(9) * c))
    st = M.finish(st) if st is not None else None
    from checks.c10 import envs
    judge(ck, 'load/any', M, st, [m for ch in (3, 5, 40, 300) for m in envs({'c': ch})])


def spectrum(ck, p):
    M, st, log, frame = run_frames(ck, None, None, p == 3, p)
    judge(ck, 'spectrum/%d' % p, M, st, envs_for(('A', 'F0')))


def classify(ck, p):
    tab = TABLES[PRESETS[p]['table']]
    n = 17
    R = Rows(ck, [(r[0], r[1], r[2], r[3], tuple(r[4:7])) for r in tab], n, lambda M, k: [sym('x%d_%d' % (k, c), ('f', 64), 0, 1) for c in range(12)])
    key = 'rows/%d' % p
    if not R.ok:
        if getattr(R, 'st', 1) is None:
            judge(ck, key, R.M, None, unit_envs(n))
        else:
            ck.unk(key, R.why)
        return
    # rows are unit vectors of non-negative numbers: a NaN assertion that needs a negative response is impossible
    ps = [e for e in R.M.panics()]
    if not ps:
        ck.ok(key, 'every runtime check on the way is discharged')
    else:
        judge(ck, key, R.M, R.st, unit_envs(n))


def unit_envs(n):
    out = []
    for seed in range(6):
        def mk(seed=seed):
            e = Ev({}, seed=seed)
            for k in range(n):
                v = [random.Random('%s/%s/%s' % (seed, k, i)).random() ** (1 + seed) * (0 if seed == 1 else 1) for i in range(12)]
                s = math.sqrt(sum(x * x for x in v)) or 1.0
                for c in range(12):
                    e.env['x%d_%d' % (k, c)] = v[c] / s
            return e
        out.append(mk)
    return out


def vectors(ck):
    """arbitrary spectra through smoothing and normalisation"""
    for nc in range(1, 9):
        M = fft_boundary(Model(ck))
        log = stages(M, cut=lambda r: False)
        M.I.unroll = 400
        st = small(M, frame=12, overlap=6, ncoef=nc, classifiers=(9,))
        st, r = M.start(st, C(11025), C(1))
        n = 12 + 6 * (nc + 1)
        st = M.consume(st, M.samples(st, 'A', C(n)))
        st = M.finish(st) if st is not None else None
        judge(ck, 'vectors/%d' % nc, M, st, envs_for(('A',) + tuple('F%d' % k for k in range(nc + 3))))


def many(ck, n):
    R = Rows(ck, [(3, 2, 6, 16, (-0.2, 0.1, 0.4)), (4, 0, 12, 2, (-0.2, 0.1, 0.4))], n, lambda M, k: [T.fconst(float((k * 37 + c * 11) % 29) / 29) for c in range(12)])
    key = 'many rows/%d' % n
    if not R.ok and R.why != 'the pipeline never returns':
        ck.unk(key, R.why)
        return
    judge(ck, key, R.M, R.st, [lambda: Ev({})])


def calls(ck, name, p, ops):
    key = 'calls/%s/%d' % (name, p)
    M = model(ck)
    st = M.started(p) if not name.startswith('resampled') else small(M, frame=8, overlap=4, ncoef=3, classifiers=(9,))
    k = 0
    for op in ops:
        if st is None:
            break
        if op == 'finish':
            st = M.finish(st)
        elif op[0] == 's':
            st, r = M.start(st, C(op[1]), C(op[2]))
        else:
            k += 1
            st = M.consume(st, M.samples(st, 'A%d' % k, C(op[1] * op[2])))
    judge(ck, key, M, st, envs_for(tuple('A%d' % j for j in range(1, k + 1))))
    for e in M.rs_calls:
        if e.get('good') is False:
            ck.bad(key + '/resampler', '%s at %s breaks its precondition: %s' % (e['what'], M.p.span(e['span']), e.get('why') or 'chunk size %s' % e.get('n')))
            return
        if e['what'].startswith('?'):
            ck.unk(key + '/resampler', 'unknown resampler call ' + e['what'])
            return


def rates(ck):
    """start itself, for every rate and channel count"""
    M = rubato_contract(fft_boundary(Model(ck), zero=True))
    st = M.new(2)
    st, r = M.start(st, sym('rate', U32, 0, (1 << 32) - 1), sym('ch', U32, 0, (1 << 32) - 1))
    judge(ck, 'start/any', M, st, envs_for((), [{'rate': a, 'ch': b} for a in (0, 1000, 1001, 11025, 44100, (1 << 32) - 1) for b in (0, 1, 2, (1 << 32) - 1)], 24))
