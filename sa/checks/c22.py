"""fpcalc sample accounting"""
from clispec import *


def run(ck):
    ck.rule = ('the samples handed to the fingerprinter, the printed durations, timestamps and words are extracted from fpcalc::main by abstract interpretation with enumerated decoder buffer sizes and symbolic contents; '
               'for every size assignment the samples must be the decoded ones in order up to the limit, each chunk must have the requested size and each printed duration must equal the audio covered')
    ck.assumptions = ['buffer sizes are enumerated up to the stated bound; rate 4 and 2 channels stand for every rate; fpcalc is linear in them']
    n1, n2, n3 = 'n1', 'n2', 'n3'
    big, sec = 'n1', 'n2'
    for length in (0, 1, 2, 3):
        ck.guard('length%d' % length, one, ck, 'length%d' % length, [('buf', n1), ('other',), ('buf', n2), ('buf', n3)], {'n1': 6, 'n2': 6, 'n3': 4}, dict(length=length))
        for chunk in (1, 2):
            for overlap in (False, True):
                k = 'length%d chunk%d%s' % (length, chunk, ' overlap' if overlap else '')
                ck.guard(k, one, ck, k, [('buf', n1), ('buf', n2), ('buf', n3)], {'n1': 6, 'n2': 6, 'n3': 4}, dict(length=length, chunk=chunk, overlap=overlap))
    for overlap, delay in ((False, 2), (True, 2), (True, 3), (True, 9), (True, 0)):
        k = 'long buffer chunk1' + (' overlap%d' % delay if overlap else '')
        ck.guard(k, one, ck, k, [('buf', big), ('buf', sec)], {'n1': 22, 'n2': 3}, dict(chunk=1, overlap=overlap), dict(delay=delay))
    ck.guard('zero chunk', one, ck, 'zero chunk', [('buf', n1), ('buf', n2)], {'n1': 6, 'n2': 6}, dict(chunk=0, overlap=True))
    for rate, ch in ((4, 1), (3, 3), (7, 2)):
        k = 'rate%d channels%d' % (rate, ch)
        ck.guard(k, one, ck, k, [('buf', n1), ('buf', n2)], {'n1': 6, 'n2': 6}, dict(chunk=1, overlap=True, length=2), dict(rate=rate, channels=ch, irate=5, delay=4))
    ck.scope['scripts'] = 'up to three decoded buffers of symbolic size, one of another track; length limits 0..3 s, chunks of 0, 1 and 2 s with and without overlap'


def one(ck, key, script, sizes, opts, model=None):
    r = Run(ck, script, 'fpcalc', sizes, model=dict(model or {}, unroll=80), **opts)
    each(ck, r, {key + '/samples': (accounting(r), 'every decoded frame up to the limit is fed once, in order'),
                 key + '/results': (printed(r), 'chunk sizes, durations and timestamps'),
                 key + '/words': (words_once(r), 'every word is printed once, in order'),
                 key + '/panic': (lambda env, tr: r.panics(env), 'no panic')})
