"""the five presets carry the published parameters"""
from fpmodel import *
from ref import TABLES, COEFS, PRESETS


def run(ck):
    ck.rule = ('abstract interpretation of every preset constructor yields a constant configuration; it must be a fixpoint of the public '
               'setters applied to the reference values (id, frame size, overlap, coefficients, interpolation, silence) and its '
               'classifier list must equal the published table entry by entry')
    ck.trusted = ['reference tables in sa/ref.py (transcribed from the chromaprint classifier tables)', 'rustc nightly MIR', 'sa/eng']
    for n in range(1, 6):
        ck.guard('preset%d' % n, preset, ck, n)
    ck.guard('default', default, ck)


def default(ck):
    M = Model(ck)
    ds = [i for i in range(len(M.p.inst)) if M.p.inst[i].get('body') and M.p.inst[i]['path'].endswith('::default') and 'Configuration' in M.p.inst[i]['name']]
    if len(ds) != 1:
        raise lib.Anchor('Configuration::default')
    st, d = M.run(ds[0], [])
    st, c = M.preset(2, st)
    ck.decide('default', d == c, 'the default configuration is preset 2')


def setter(M, st, c, name, args):
    return M.run(CFGP + name, [c] + args, st)


def preset(ck, n):
    M = Model(ck)
    st, c = M.preset(n)
    R = PRESETS[n]
    p = M.panics()
    ck.decide('preset%d/returns' % n, not p, 'constructing the preset cannot panic')
    m = 'preset%d/' % n

    def fix(key, name, args, others):
        s2, v = setter(M, st.fork(), c, name, args)
        ck.decide(m + key, v == c, '%s(%s) leaves the preset as it is' % (name, ', '.join(map(str, args))[:80]))
        for o in others:
            s3, w = setter(M, st.fork(), c, name, o)
            ck.decide(m + key + '/distinguishes', w != c, 'the setter distinguishes other values')
    fix('id', 'with_id', [C(R['id'])], [[C(77)]])
    st2, i = M.run(CFGP + 'id', [Ref(('cfg',))], st)
    ck.decide(m + 'id/getter', i == C(R['id']), 'id() returns %d: %s' % (R['id'], i))
    fix('frame_size', 'with_frame_size', [C(R['frame'])], [[C(R['frame'] + 1)]])
    fix('frame_overlap', 'with_frame_overlap', [C(R['overlap'])], [[C(R['overlap'] + 1)]])
    fix('interpolation', 'with_interpolation', [TRUE if R['interpolate'] else FALSE], [[FALSE if R['interpolate'] else TRUE]])
    st2, sr = M.run(CFGP + 'sample_rate', [Ref(('cfg',))], st)
    ck.decide(m + 'sample_rate', sr == C(11025), 'internal sample rate is 11025 Hz: %s' % sr)
    if R['silence'] is not None:
        fix('silence', 'with_removed_silence', [C(R['silence'])], [[C(R['silence'] + 1)]])
    else:
        s3, w = setter(M, st.fork(), c, 'with_removed_silence', [C(50)])
        ck.decide(m + 'silence', w != c, 'silence removal is off')
    # coefficients: contents of the one f64 sequence
    fl = [v for v in M.fields(c).values() if isinstance(v, SeqV) and v.len.is_const() and int(v.len.cval()) and isinstance(seqel(M, v, 0), Poly)]
    if len(fl) == 1:
        got = [float(T.fval(seqel(M, fl[0], i))) for i in range(int(fl[0].len.cval()))]
        ck.decide(m + 'coefficients', got == COEFS, 'chroma filter coefficients: %s' % got)
    else:
        ck.unk(m + 'coefficients', 'no unique coefficient list found')
    cls = [v for v in M.fields(c).values() if isinstance(v, SeqV) and v.len.is_const() and int(v.len.cval()) and isinstance(seqel(M, v, 0), Agg)]
    if len(cls) != 1:
        ck.unk(m + 'classifiers', 'no unique classifier list found')
        return
    tab = TABLES[R['table']]
    ck.decide(m + 'classifiers/count', int(cls[0].len.cval()) == len(tab), '%s classifiers, published table has %d' % (cls[0].len, len(tab)))
    for i in range(min(int(cls[0].len.cval()), len(tab))):
        got = classifier(M, seqel(M, cls[0], i))
        if got is None:
            ck.unk(m + 'classifier%d' % i, 'layout of Classifier not understood')
            continue
        ck.decide(m + 'classifier%d' % i, got == tab[i], 'code %s, published %s' % (got, tab[i]))
    ck.scope['classifier entries compared'] = ck.scope.get('classifier entries compared', 0) + len(tab)


def seqel(M, v, i):
    return M.I.select(v.arr, C(i), None)


def classifier(M, v):
    """(kind, y, height, width, t0, t1, t2) of a classifier value, found by type and field name"""
    ints, fl, kind = {}, [], None
    for p, x in list(walk(M, v)):
        if isinstance(x, Poly):
            t = p[-1]
            if M.p.ty[t[1]]['name'] == 'f64':
                fl.append(float(T.fval(x)))
            elif x.is_const():
                ints[t[0]] = int(x.cval())
        elif isinstance(x, Enum):
            if len(x.alts) != 1:
                return None
            kind = x.alts[0][0]
    if kind is None or len(fl) != 3 or not {'y', 'height', 'width'} <= set(ints):
        return None
    fl.sort()
    return (kind, ints['y'], ints['height'], ints['width']) + tuple(fl)


def walk(M, v, path=()):
    if isinstance(v, Agg) and v.ty is not None and M.p.ty[v.ty]['k'] == 'adt':
        for (n, ft), x in zip(M.p.ty[v.ty]['variants'][0]['fields'], v.f):
            yield from walk(M, x, path + ((n, ft),))
    else:
        yield path, v
