"""start(): argument validation and the untouched state after a rejected call"""
import random, zlib
from fpmodel import *


def run(ck):
    ck.rule = ('abstract interpretation of Fingerprinter::start for every class of arguments (channels = 0; rate <= 1000; otherwise, '
               'with rate = / != internal rate): the guard of each Result variant must equal the specification and a rejected call '
               'must leave every field of the fingerprinter as it was')
    ck.assumptions = ['rubato::SincFixedIn::new succeeds for ratio > 0 and a relative bound >= 1']
    classes = [
        ('channels=0', lambda r, c: band(eq(c, ZERO), TRUE), 'NoChannels', [(0, 0), (1000, 0), (1001, 0), (44100, 0), (4294967295, 0), (11025, 0)]),
        ('rate<=1000', lambda r, c: band(lt(ZERO, c), le(r, C(1000))), 'SampleRateTooLow', [(0, 1), (1000, 1), (1000, 2), (999, 4294967295), (1, 3), (500, 2)]),
        ('resampled', lambda r, c: band(band(lt(ZERO, c), lt(C(1000), r)), bnot(eq(r, C(11025)))), 'Ok',
         [(1001, 1), (1001, 2), (8000, 1), (44100, 2), (44100, 1), (48000, 6), (48000, 255), (192000, 256), (4294967295, 4294967295), (11024, 3), (11026, 3), (22050, 1), (96000, 65536), (11025 * 2, 2), (5000, 1), (384000, 8), (400000, 2), (2000000, 2), (1048577, 17), (22050, 33), (22050, 65), (2000, 9)]),
        ('native', lambda r, c: band(lt(ZERO, c), eq(r, C(11025))), 'Ok', [(11025, 1), (11025, 2), (11025, 3), (11025, 256), (11025, 65537), (11025, 4294967295)]),
    ]
    for preset in ((2,) if not ck.thorough else (1, 2, 3, 4, 5)):
        for name, cls, want, pts in classes:
            ck.guard('start/%s' % name, one_class, ck, preset, name, cls, want, pts)
    # a rejected call on a fingerprinter that is in use
    for name, cls, want, pts in classes[:2]:
        ck.guard('untouched/%s' % name, untouched, ck, name, cls, pts)


def prep(preset):
    M = rubato_contract(Model())
    return M, M.new(preset)


def one_class(ck, preset, name, cls, want, pts):
    M, st = prep(preset)
    ck.scope['entry points'] = ['Fingerprinter::new', 'Fingerprinter::start']
    rate, ch = sym('rate', U32), sym('ch', U32)
    st.add_pc(cls(rate, ch))
    n0 = len(M.I.events)
    before = st.mem[('fp',)]
    st, r = M.start(st, rate, ch)
    envs = [lambda p=p: Ev({'rate': p[0], 'ch': p[1]}) for p in pts]
    key = 'p%d/%s' % (preset, name)
    for e in M.panics(n0):
        v = holds_event(M, e, envs)
        verdict(ck, key + '/panic:' + e.get('what', '?') + '@' + e.get('fn', '?'), v, 'start must not panic: ' + M.where(e))
    if st is None:
        ck.bad(key + '/returns', 'start never returns for this class of arguments')
        return
    vs = err_variant(M, r)
    ok = FALSE
    errs = {}
    for n, g, f in vs:
        if n == 'Ok':
            ok = bor(ok, g)
        elif f and isinstance(f[0], Enum):
            for n2, g2, f2 in err_variant(M, f[0]):
                errs[n2] = bor(errs.get(n2, FALSE), band(g, g2))
    if want == 'Ok':
        verdict(ck, key + '/accepted', holds(st, ok, envs), 'valid arguments are accepted')
    else:
        verdict(ck, key + '/rejected', holds(st, bnot(ok), envs), 'invalid arguments are rejected')
        verdict(ck, key + '/kind', holds(st, errs.get(want, FALSE), envs), 'the error is ' + want)
        for pth, a, b in leaves_differ(M, st, before, st.mem[('fp',)]):
            ck.bad(key + '/changed:' + '.'.join(pth), 'a rejected start changed %s: %s -> %s' % ('.'.join(pth), str(a)[:120], str(b)[:120]))
        ck.ok(key + '/state', 'state compared leaf by leaf')


def holds_event(M, e, envs):
    """panic event e must be impossible"""
    if e['cond'] is TRUE and e['pc'] is TRUE:
        return ('neq', 'always', None, None)
    c = band(e['pc'], e['cond'])
    for mk in envs:
        ev = mk()
        try:
            if ev is not None and ev.bdd(c):
                return ('neq', dict(list(ev.env.items())[:12]), None, None)
        except (Unknown, OverflowError):
            continue
    return None


def untouched(ck, name, cls, pts):
    """same, with an arbitrary (symbolic) state: the fields of a fingerprinter in any history"""
    M, st = prep(2)
    rate, ch = sym('rate', U32), sym('ch', U32)
    old = st.mem[('fp',)]
    dirty = havoc(M, st, old)
    st.mem[('fp',)] = dirty
    st.add_pc(cls(rate, ch))
    st, r = M.start(st, rate, ch)
    d = leaves_differ(M, st, dirty, st.mem[('fp',)])
    ck.scope['state leaves havocked'] = COUNT[0]
    if not d:
        ck.ok('any-history/%s' % name, 'all %d state leaves keep their value' % COUNT[0])
    for pth, a, b in d:
        envs = [lambda p=p: Ev({'rate': p[0], 'ch': p[1]}, seed=k, auto=lambda n, at: 7919 + zlib.crc32(str(n).encode()) % 1000 if at is not None else True) for k, p in enumerate(pts)]
        if isinstance(a, Poly) and isinstance(b, Poly):
            r = same(b, a, st.ctx(), envs)
        elif isinstance(b, (Arr, V)) and not deps_hit(b):
            r = ('neq', 'value forgets the old state', None, None)
        else:
            r = None
        verdict(ck, 'any-history/%s/%s' % (name, '.'.join(pth)), r, 'a rejected start must not change %s' % '.'.join(pth))


def deps_hit(v):
    return 'old' in repr(v)


