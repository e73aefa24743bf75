"""the header of a compressed fingerprint: algorithm identifier, then the number of words in three bytes"""
from specs import *
from ref import PRESETS

FC = '::compression::FingerprintCompressor'


def compressor(M, st, cfg):
    """FingerprintCompressor::from(&configuration) at ('cmp',)"""
    st.mem[('cfg',)] = cfg
    r = [i for i, x in enumerate(M.p.inst) if x['path'].endswith('::from') and 'FingerprintCompressor' in x['path'] and 'Configuration' in x['path'] and x.get('body')]
    if len(r) != 1:
        raise lib.Anchor('FingerprintCompressor::from')
    st, c = M.run(r[0], [Ref(('cfg',))], st)
    st.mem[('cmp',)] = c
    return st


def compress_fn(M):
    r = [i for i, x in enumerate(M.p.inst) if x['path'].endswith('::compress') and 'FingerprintCompressor' in x['path'] and x.get('body')]
    if len(r) != 1:
        raise lib.Anchor('FingerprintCompressor::compress')
    return r[0]


def compress(M, st, seq, ctx='c'):
    st.mem[('words',)] = seq
    return M.run(compress_fn(M), [Ref(('cmp',)), Ref(('words',), (), (ZERO, seq.len))], st, ctx)


def run(ck):
    ck.rule = ('abstract interpretation of FingerprintCompressor::compress on a fingerprint of symbolic length and content, with everything computed from the words replaced by arbitrary data: the first four bytes '
               'of the result must be the identifier of the configuration and the big endian digits of the length')
    ck.assumptions = ['closures passed to iterator adaptors only change their own captured state (their bodies are not run when the number of elements is symbolic)']
    for p in sorted(PRESETS):
        ck.guard('preset/%d' % p, header, ck, p)
    ck.guard('any id', header, ck, None)
    for n in (0, 1, 2, 3, 8, 17):
        for p in (2, 3, None):
            ck.guard('length/%d/%s' % (n, p or 'any id'), header, ck, p, n)


def header(ck, p, length=None):
    M = Model(ck)
    M.I.eager = 'lossy' if length is None else True
    key = 'preset/%d' % p if p else 'any id'
    if length is not None:
        key = 'length/%d/%s' % (length, p or 'any id')
    if p:
        st, c = M.preset(p)
        ident = C(PRESETS[p]['id'])
    else:
        st, c = M.preset(2)
        ident = sym('id', U8, 0, 255)
        st, c = M.run(CFGP + 'with_id', [c, ident], st)
    st = compressor(M, st, c)
    if length is None:
        n = sym('n', USIZE, 0, (1 << 24) - 1)
        st, r = compress(M, st, SeqV(ArrSym('W', U32), n))
    else:
        # equal words of few bits: the rest of the output is not the subject here
        n = C(length)
        st, r = compress(M, st, SeqV(ArrList([C(5)] * length), n))
    envs = [lambda n=length, d=d: Ev({'id': d}, auto=lambda n, a: 0) for d in (0, 1, 4, 200, 255)] if length is not None else [lambda n=n, d=d: Ev({'n': n, 'id': d}, auto=lambda n, a: 0) for n in (0, 1, 2, 7, 8, 255, 256, 257, 948, 65535, 65536, 65537, 131071, 1 << 20, 70000, 0x123456, (1 << 24) - 1) for d in (0, 1, 4, 200, 255)]
    if st is None:
        ck.bad(key + '/returns', 'compress never returns')
        return
    if not isinstance(r, SeqV):
        ck.unk(key, 'result is %s' % (type(r).__name__ + repr(r)[:300]))
        return
    ctx = st.ctx()
    if r.len.cval() is not None and r.len.cval() < 4:
        ck.bad(key + '/length', '%s bytes for %s words' % (r.len.cval(), length))
        return
    if ctx.simplify(lt(r.len, C(4))) is not FALSE:
        ck.unk(key + '/length', 'length %s not shown to be at least 4' % repr(r.len)[:80])
    for i, want in enumerate((ident, idiv(n, C(65536)), irem(idiv(n, C(256)), C(256)), irem(n, C(256))) if length is None else (ident, C(length >> 16), C(length >> 8 & 255), C(length & 255))):
        got = M.I.select(r.arr, C(i), ctx)
        d = 'byte %d' % i
        if not isinstance(got, Poly):
            ck.unk('%s/%d' % (key, i), d + ': %s' % type(got).__name__)
            continue
        if got == want or ctx.equal(got, want):
            ck.ok('%s/%d' % (key, i), d)
            continue
        w = witness(got, want, envs)
        if w:
            ck.bad('%s/%d' % (key, i), 'byte %d of the result is %s, expected %s, for %s' % (i, w[2], w[3], {k: v for k, v in w[1].items() if k in ('n', 'id')}))
        else:
            ck.unk('%s/%d' % (key, i), d + ': %s' % repr(got)[:120])
