"""failures are reported, not unwrapped"""
from clispec import *

SETUP = ('open', 'format', 'make', 'start')


def run(ck):
    ck.rule = ('abstract interpretation of fpcalc::main and compare::main where every fallible library call may fail: for each combination of outcomes a set-up failure must lead to Err from main, '
               'and no combination of outcomes, packet errors or argument counts may reach a panic')
    ck.assumptions = ['the decoder delivers buffers no larger than the capacity of the first one and with the channel count of the track']
    sc = [('buf', 3), ('other',), ('buf', 5)]
    for crate in ('fpcalc', 'compare'):
        for name in ('usable', 'no track', 'only unknown codecs'):
            tl = {'usable': None, 'no track': [], 'only unknown codecs': [(3, 0, 111, 7), (4, 0, 111, 7)]}[name]
            ck.guard('%s/%s' % (crate, name), setup, ck, crate, name, tl, sc)
        for e in ('IoError', 'DecodeError', 'SeekError', 'Unsupported', 'LimitError', 'ResetRequired'):
            ck.guard('%s/packet %s' % (crate, e), stream, ck, crate, 'packet %s' % e, [('buf', 4), ('packet-error', e), ('buf', 3)])
        for e in ('decode-error', 'io-error'):
            ck.guard('%s/%s' % (crate, e), stream, ck, crate, e, [('buf', 4), (e,), ('buf', 3)])
            ck.guard('%s/first %s' % (crate, e), stream, ck, crate, 'first ' + e, [(e,), ('buf', 3)])
    for n in (1, 2, 3, 4):
        ck.guard('compare/%d arguments' % n, arguments, ck, n)
    ck.guard('compare/match', matchfail, ck)
    ck.guard('unwrap', unwraps, ck)


def setup(ck, crate, name, tl, sc):
    r = Run(ck, sc, crate, {}, ok=False, tracks=tl, **(dict(chunk=1, overlap=True) if crate == 'fpcalc' else {}))
    r.load({})
    flags = ['open', 'format', 'make', 'start', 'sample_rate', 'channels', 'layout'] + (['match'] if crate == 'compare' else [])
    bad = None
    n = 0
    for vs in itertools.product((True, False), repeat=len(flags)):
        env = {'ok:' + f: v for f, v in zip(flags, vs)}
        f = dict(zip(flags, vs))
        p = r.panics(env)
        n += 1
        if p:
            bad = bad or ('panic', env, 'reaches a panic: ' + p)
            break
        good = f['open'] and f['format'] and f['make'] and f['start'] and f['sample_rate'] and (f['channels'] or f['layout']) and tl is None and f.get('match', True)
        if r.ok(env) and not good:
            bad = ('report', env, 'ends successfully')
            break
        if not r.ok(env) and good:
            bad = ('report', env, 'ends with an error')
            break
    key = '%s/%s' % (crate, name)
    if bad:
        ck.bad(key, '%s with %s %s' % (crate, ', '.join('%s %s' % (k[3:], 'ok' if v else 'failing') for k, v in bad[1].items()), bad[2]))
    else:
        ck.ok(key, 'every set-up failure ends in Err, success in Ok, no panic (%d outcome combinations)' % n)


def stream(ck, crate, name, sc):
    for opts in ((dict(), dict(chunk=1)) if crate == 'fpcalc' else (dict(),)):
        r = Run(ck, sc, crate, {}, ok=True, **opts)
        key = '%s/%s%s' % (crate, name, '/chunk' if opts else '')
        each(ck, r, {key: (lambda env, tr: r.panics(env), 'no panic')})


def arguments(ck, n):
    r = Run(ck, [('buf', 3)], 'compare', {}, ok=True, model=dict(nargs=n))
    each(ck, r, {'compare/%d arguments' % n: (lambda env, tr: r.panics(env), 'no panic')})


def matchfail(ck):
    r = Run(ck, [('buf', 3)], 'compare', {}, ok=('open', 'format', 'make', 'sample_rate', 'channels', 'layout', 'start'))
    r.load({})
    ck.decide('compare/match', not r.ok({'ok:match': False}) and r.ok({'ok:match': True}), 'a rejected match is reported')


def unwraps(ck):
    """no unwrap / expect of a value made by an external call anywhere in the tools"""
    for crate in ('fpcalc', 'compare'):
        p = lib.program(crate)
        n = 0
        for x in p.inst:
            b = x.get('body')
            if x['crate'] != crate or not b:
                continue
            for blk in b['blocks']:
                t = blk[1]
                if t and t[0] == 'call':
                    n += 1
        ck.scope['call sites in ' + crate] = n
