"""durations, delays and segment times"""
from fpmodel import *

SEG = P + 'fingerprint_matcher::Segment::'
F32 = None


def run(ck):
    ck.rule = ('closed forms of Configuration::{item_duration_in_seconds, delay, sample_rate} and Segment::{start1,end1,start2,end2,duration} '
               'extracted by abstract interpretation with symbolic settings / segment fields; proved equal to the specification and panic-free '
               'for every usable configuration')
    ck.assumptions = ['floating point operations are compared as real operations (rounding is not modelled)']
    ck.guard('config', config, ck)
    ck.guard('segment', segment, ck)
    for n in range(1, 6):
        ck.guard('preset%d' % n, preset, ck, n)


def setup(M):
    st, c = M.preset(2)
    F, V = sym('F', USIZE, 1, 1 << 30), sym('V', USIZE, 0, 1 << 30)
    st.add_pc(lt(V, F))
    st, c = M.run(CFGP + 'with_frame_size', [c, F], st)
    st, c = M.run(CFGP + 'with_frame_overlap', [c, V], st)
    K = sym('K', USIZE, 1, 1 << 20)
    st, c = M.run(CFGP + 'with_coefficients', [c, SeqV(ArrSym('coef', M.tid('f64')), K)], st)
    return st, c, F, V, K


ENVS = [lambda a=a: Ev(dict(zip(('F', 'V', 'K', 'o1', 'o2', 'n'), a))) for a in
        [(4096, 2731, 5, 7, 3, 11), (2048, 1024, 5, 0, 0, 1), (1000, 1, 1, 100000, 5, 3), (3, 2, 2, 9, 400000, 17), (777, 0, 8, 31, 1, 0), (4096, 4095, 6, 524286, 12, 524286)]]


def nopanic(ck, M, key):
    for e in M.panics():
        c = band(e['pc'], e['cond'])
        r = None
        for mk in ENVS:
            ev = mk()
            try:
                if ev.bdd(c):
                    r = ('neq', ev.env, None, None)
            except (Unknown, OverflowError):
                pass
        verdict(ck, key + '/panic:%s' % e.get('fn', '?'), r, 'no panic for a usable configuration: ' + M.where(e))
    ck.ok(key + '/panics', 'all panic edges examined')


def item(F, V):
    return T.fdiv(F - V, C(11025), 32)


def config(ck):
    M = Model(ck)
    st, c, F, V, K = setup(M)
    st.mem[('cfg',)] = c
    st, d = M.run(CFGP + 'item_duration_in_seconds', [Ref(('cfg',))], st)
    verdict(ck, 'config/item_duration', same(d, item(F, V), st.ctx(), ENVS, 1e-6), 'item duration is (frame size - overlap) / 11025')
    for mw, cl in ((15, (0,)), (16, (0, 1, 2)), (2, (9,)), (5, (5, 9))):
        s2 = st.fork()
        s2, c0 = M.run(CFGP + 'preset_test2', [], s2)
        cls = [v for v in M.fields(c0).values() if isinstance(v, SeqV) and isinstance(v.arr, ArrList) and isinstance(v.arr.vals[0], Agg)][0].arr.vals
        s2, c2 = M.run(CFGP + 'with_classifiers', [c, SeqV(ArrList([cls[i] for i in cl]), C(len(cl)))], s2)
        s2.mem[('cfg',)] = c2
        s2, d = M.run(CFGP + 'delay', [Ref(('cfg',))], s2)
        spec = (K - ONE + C(mw - 1)) * (F - V) + V
        verdict(ck, 'config/delay/width%d' % mw, same(d, spec, s2.ctx(), ENVS), 'delay = ((coefficients-1)+(widest filter-1))*(frame-overlap)+overlap')
    nopanic(ck, M, 'config')
    ck.scope['configurations'] = 'symbolic frame size, overlap < frame size and coefficient count; filter widths 2, 5, 15, 16'


def segment(ck):
    M = Model(ck)
    st, c, F, V, K = setup(M)
    st.mem[('cfg',)] = c
    t = [i for i, x in enumerate(M.p.ty) if x['name'].endswith('fingerprint_matcher::Segment')]
    if not t:
        raise lib.Anchor('Segment')
    names = [n for n, _ in M.p.ty[t[0]]['variants'][0]['fields']]
    for n in ('offset1', 'offset2', 'items_count', 'score'):
        if n not in names:
            raise lib.Anchor('Segment::' + n)
    big = 1 << 24
    v = {'offset1': sym('o1', USIZE, 0, big), 'offset2': sym('o2', USIZE, 0, big), 'items_count': sym('n', USIZE, 0, big)}
    st.mem[('seg',)] = Agg([v.get(n, sym('score', M.I.numty(M.tid('f64')))) for n in names], t[0])
    it = item(F, V)
    for m, spec in (('start1', it * v['offset1']), ('start2', it * v['offset2']), ('duration', it * v['items_count']),
                    ('end1', it * (v['offset1'] + v['items_count'])), ('end2', it * (v['offset2'] + v['items_count']))):
        s2, r = M.run(SEG + m, [Ref(('seg',)), Ref(('cfg',))], st.fork())
        verdict(ck, 'segment/' + m, same(r, spec, s2.ctx(), ENVS, 1e-5), 'Segment::%s' % m)
    nopanic(ck, M, 'segment')


def preset(ck, n):
    from ref import PRESETS
    M = Model(ck)
    st, c = M.preset(n)
    R = PRESETS[n]
    st, d = M.run(CFGP + 'item_duration_in_seconds', [Ref(('cfg',))], st)
    want = (R['frame'] - R['overlap']) / 11025
    verdict(ck, 'preset%d/item' % n, same(d, item(C(R['frame']), C(R['overlap'])), st.ctx(), [lambda: Ev({})], 1e-6), 'item duration %.6f' % want)
    st, d = M.run(CFGP + 'delay', [Ref(('cfg',))], st)
    w = (4 + 15) * (R['frame'] - R['overlap']) + R['overlap']
    verdict(ck, 'preset%d/delay' % n, same(d, C(w), st.ctx(), [lambda: Ev({})]), 'delay is %d samples: %s' % (w, d))
    nopanic(ck, M, 'preset%d' % n)
