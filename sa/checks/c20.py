"""tools drive the fingerprinter through its protocol"""
from clispec import *


def run(ck):
    ck.rule = ('the event order of fpcalc::main and compare::main (start, consume, finish, fingerprint, decoder and packet results) is extracted by abstract interpretation of their MIR '
               'against scripted decoder contracts with enumerated buffer sizes and symbolic contents, and checked against the protocol automaton on every path')
    ck.assumptions = ['the decoder delivers the scripted packet sequence; buffer sizes are enumerated up to 6 frames, sample contents and fallible calls symbolic']
    a, b = 'n1', 'n2'
    S = {'n1': 5, 'n2': 6}
    scripts = {'two buffers': ([('buf', a), ('buf', b)], S), 'other track': ([('other',), ('buf', a), ('other',), ('buf', b), ('other',)], S),
               'empty': ([], {}), 'only other': ([('other',)], {})}
    for nm, (sc, sz) in scripts.items():
        for opts in (dict(), dict(length=1), dict(chunk=1), dict(chunk=1, overlap=True), dict(chunk=1, overlap=True, length=2, ts=True)):
            ck.guard('fpcalc/%s' % nm, one, ck, 'fpcalc', nm, sc, sz, opts)
        ck.guard('compare/%s' % nm, one, ck, 'compare', nm, sc, sz, {})
    for nm, sc, sz in (('decode error', [('buf', a), ('decode-error',), ('buf', b)], S), ('read error', [('buf', a), ('packet-error', 'IoError')], {'n1': 5}),
                       ('decoder io error', [('buf', a), ('io-error',), ('buf', b)], S), ('reset required', [('buf', a), ('packet-error', 'ResetRequired')], {'n1': 5})):
        ck.guard('fpcalc/%s' % nm, one, ck, 'fpcalc', nm, sc, sz, {})
        ck.guard('compare/%s' % nm, one, ck, 'compare', nm, sc, sz, {})
    for crate in ('fpcalc', 'compare'):
        ck.guard(crate + '/start', startfail, ck, crate)
    ck.scope['paths'] = 'fpcalc under 5 option sets x 4 packet scripts + 4 fault scripts, compare under 8 scripts, both with a failing start'


def one(ck, crate, nm, sc, sz, opts):
    r = Run(ck, sc, crate, sz, **opts)
    key = '%s/%s/%s' % (crate, nm, r.name() if crate == 'fpcalc' else 'run')
    J = {key + '/protocol': (protocol(r, opts.get('overlap', False)), 'started before fed, finished before read, selected track only')}

    def complete(env, tr):
        clean(tr)
        fed = any(w == 'consume' and d['data'] for w, d, e in tr)
        if not r.ok(env):
            return None
        reads = [e for w, d, e in tr if w == 'fingerprint']
        if fed and not reads:
            return 'samples were fed but the fingerprint is never read'
        return None
    J[key + '/complete'] = (complete, 'a fed stream is finished and read')
    each(ck, r, J)


def startfail(ck, crate):
    """consume only happens on paths where start succeeded"""
    r = Run(ck, [('buf', 3), ('buf', 4)], crate, {}, ok=('open', 'format', 'make', 'sample_rate', 'channels', 'layout', 'match'), **(dict(chunk=1) if crate == 'fpcalc' else {}))
    bad = None
    n = 0
    for v in (False, True):
        tr = r.trace({'ok:start': v})
        n += sum(1 for w, d, e in tr if w == 'start')
        for w, d, e in tr:
            if w in ('consume', 'fingerprint') and not v:
                bad = 'when start fails, %s is still reached: %s' % (w, at(e))
    if not n:
        ck.unk(crate + '/start', 'no start call seen')
    else:
        ck.decide(crate + '/start', not bad, bad or 'no path feeds or reads the fingerprinter after a failed start')
