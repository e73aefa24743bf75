"""compression encodes the bit positions of successive differences"""
import random
from specs import *
from checks.c13 import compressor, compress, compress_fn
import eng.natives as N


def run(ck):
    ck.rule = ('abstract interpretation. (1) The encoder of one word, run on a word made of 32 symbolic bits with conditional (guarded) emission: the j-th element must be emitted exactly when bit j is set and carry the distance to the '
               'previous set bit as (distance) or (7, distance-7), then the terminator; conditions are compared as decision diagrams and values in every case of (this bit, previous set bit). (2) compress with that encoder '
               'replaced by symbolic elements of prescribed shapes: it must be given w0, w1^w0, w2^w1.. and every output byte must be the required combination of element bits')
    ck.assumptions = ['the packing treats groups of eight values alike beyond the shapes covered (all totals of 0..40 values and 0..20 remainders)']
    M = Model(ck)
    f = [i for i, x in enumerate(M.p.inst) if x['path'].endswith('::compress_subfingerprint') and x.get('body')]
    compress_fn(M)
    ck.guard('length', one_byte_more, ck)
    if len(f) != 1:
        ck.unk('encoder', 'no function compress_subfingerprint')
        return
    ck.guard('word', word, ck, f[0])
    for name, pat in (('empty', ''), ('one', 'n'), ('zero', 'z'), ('two', 'nn'), ('repeat', 'nr'), ('back to zero', 'nz'), ('three', 'nnn'), ('repeat then new', 'nrn'), ('new then repeat', 'nnr'),
                      ('five', 'nnrrn'), ('nine', 'nnnnnnnnn'), ('repeats', 'nrrnrrrnrrrrrrrrrrrrrrnrrrrrrrrrrrrrrrrrrn'), ('eight then repeats', 'nnnnnnnrnnnnnnnrrnnnnnnnnnrr'), ('zeros', 'z' * 40), ('zero then new', 'zzzzzzznzzzzzzzznz')):
        ck.guard('words/' + name, words, ck, f[0], name, pat, shapes_for(pat, name))
    # all totals
    for tot in range(1, 41):
        ck.guard('totals/%d' % tot, words, ck, f[0], 'total %d' % tot, 'nn', total_shapes(tot))


def one_byte_more(ck):
    """no words: only the header"""
    M = Model(ck)
    M.I.eager = True
    st, c = M.preset(2)
    st = compressor(M, st, c)
    st, r = compress(M, st, SeqV(ArrList([]), C(0)))
    if st is None:
        ck.bad('empty/returns', 'compress of an empty fingerprint never returns')
    elif isinstance(r, SeqV) and r.len.cval() is not None:
        (ck.ok if r.len == C(4) else ck.bad)('empty', '%s bytes for an empty fingerprint' % r.len.cval())
    else:
        ck.unk('empty', 'length unknown')


# ---------------------------------------------------------------- one word
def bits(name, n, nt=U8):
    return [sym('%s_%d' % (name, i), nt, 0, 1) for i in range(n)]


def number(bs):
    r = ZERO
    for i, b in enumerate(bs):
        r = r + C(1 << i) * b
    return r


def reference(x):
    out, last = [], 0
    for i in range(32):
        if x >> i & 1:
            d = i + 1 - last
            out.append((d, None) if d < 7 else (7, d - 7))
            last = i + 1
    return out + [(0, None)]


def opt_parts(v):
    """(guard of Some, payload)"""
    if not isinstance(v, Enum):
        return None
    g = v.guard(1)
    return g, (v.fields(1)[0] if g is not FALSE else None)


def word(ck, f):
    M = Model(ck)
    M.I.eager = True
    bs = bits('b', 32, U32)
    st, r = M.run(f, [number(bs)])
    key = 'word'
    if st is None:
        ck.bad(key + '/returns', 'the encoder of a word never returns')
        return
    if not isinstance(r, IterV) or not (r.desc[0] in ('gvec', 'vec')):
        it = None
    else:
        it = r
    from eng.iters import eager, as_intoiter
    itv = it or as_intoiter(M.I, st, r)
    got = eager(M.I, st, itv, 'fin') if itv is not None else None
    if got is None or got[0] is None:
        ck.unk(key, 'the encoder does not yield a finite guarded list (%s)' % type(r).__name__)
        return
    st, items = got
    ev = []
    for g, v in items:
        if not (isinstance(v, Agg) and len(v.f) == 2 and isinstance(v.f[0], Poly) and opt_parts(v.f[1])):
            ck.unk(key, 'elements are not (value, optional remainder)')
            return
        ev.append((g, v.f[0]) + opt_parts(v.f[1]))
    rnd = random.Random(5)
    tests = [0, 1, 0xFFFFFFFF, 1 << 31, 1 << 6, 1 << 7, 1 << 5, 0x81, 0x80000001, 0x01010101, 0x40404040] + [1 << i for i in range(32)] + [(1 << i) | (1 << j) for i in range(32) for j in range(i)] + \
        [rnd.getrandbits(32) for _ in range(60)] + [rnd.getrandbits(32) & rnd.getrandbits(32) & rnd.getrandbits(32) for _ in range(60)]

    def env(x):
        return Ev({'b_%d' % i: x >> i & 1 for i in range(32)})
    n = panic_events(ck, key, M, 0, [lambda x=x: env(x) for x in tests])
    if n:
        ck.unk(key + '/checks', '%d runtime checks not discharged' % n)
    for x in tests:
        e = env(x)
        try:
            seq = [(int(e.val(v)), int(e.val(p)) if e.bdd(h) else None) for g, v, h, p in ev if e.bdd(g)]
        except (Unknown, Domain):
            continue
        if seq != reference(x):
            ck.bad(key + '/sequence', 'difference 0x%08x is encoded as %s, expected %s' % (x, seq, reference(x)))
            return
    # proof: structure position by position
    if len(ev) != 33:
        ck.unk(key, '%d conditional elements, expected 33' % len(ev))
        return
    for i in range(32):
        g, v, h, p = ev[i]
        k = '%s/bit %d' % (key, i)
        if not same_bool(g, eq(bs[i], ONE), st):
            ck.unk(k, 'emission condition %s' % repr(g)[:100])
            continue
        good = True
        for j in range(i + 1):              # j = 1-based position of the previous set bit, 0: none
            m = {a: ONE if q == i or q == j - 1 else ZERO for q, a in enumerate(b.as_atom() for b in bs) if j - 1 <= q <= i and q >= 0}
            m = {a.id: x for a, x in m.items()}
            d = i + 1 - j
            want = (d, None) if d < 7 else (7, d - 7)
            val = T.subst(v, m)
            hh = T.subst(h, m)
            pp = T.subst(p, m) if p is not None else None
            if not (val == C(want[0]) and hh is (FALSE if want[1] is None else TRUE) and (want[1] is None or pp == C(want[1]))):
                ck.unk('%s/after %d' % (k, j), 'value %s, remainder %s %s' % (repr(val)[:60], repr(hh)[:40], repr(pp)[:40]))
                good = False
        if good:
            ck.ok(k, 'emitted exactly when set, with the right distance from each of the %d possible predecessors' % (i + 1))
    g, v, h, p = ev[32]
    if g is TRUE and v == ZERO and h is FALSE:
        ck.ok(key + '/terminator')
    else:
        ck.unk(key + '/terminator', '%s %s' % (repr(g)[:60], repr(v)[:60]))


def same_bool(a, b, st):
    return a is b or st.ctx().simplify(bor(band(a, bnot(b)), band(b, bnot(a)))) is FALSE


# ---------------------------------------------------------------- the stream
def shapes_for(pat, name):
    r = random.Random(name)
    return [None if c in 'zr' and k == 0 or c == 'r' else [r.random() < .25 for _ in range(r.randint(1, 9 if len(pat) < 12 else 1))] for k, c in enumerate(pat)]


def total_shapes(tot):
    """two words with `tot` values in all (terminators included) of which up to half carry a remainder"""
    r = random.Random(tot)
    a = r.randint(0, tot - 2) if tot >= 2 else 0
    k = [i < (tot - 1) // 2 for i in range(max(0, tot - 2))]
    r.shuffle(k)
    return [k[:a], k[a:]]


def words(ck, f, name, pat, shapes):
    key = 'stream/' + name
    M = Model(ck)
    M.I.eager = True
    opt = [i for i, x in enumerate(M.p.ty) if x['k'] == 'adt' and (x['name'] or '').endswith('option::Option<u8>')]
    st, c = M.preset(2)
    st = compressor(M, st, c)
    ws = []
    for k, ch in enumerate(pat):
        if ch == 'z':
            ws.append(ZERO)
        elif ch == 'r':
            ws.append(ws[-1])
        else:
            ws.append(sym('w%d' % k, U32))
            st.add_pc(bnot(eq(ws[-1], ws[-2] if k else ZERO)))
    diffs = [M.I.bitop(st, 'BitXor', w, ws[k - 1] if k else ZERO, U32) for k, w in enumerate(ws)]
    changed = [k for k, d in enumerate(diffs) if d != ZERO]
    # what the encoder is assumed to emit for each word, as bits of (remainder, value); for a repeated word the terminator only
    emits = [[(bits('e%d_%d' % (k, j), 5) if esc else None, None if esc else bits('n%d_%d' % (k, j), 3)) for j, esc in enumerate(shapes[k] or [])] if d != ZERO else [] for k, d in enumerate(diffs)]
    for k, d in enumerate(diffs):           # equal differences are encoded alike
        emits[k] = emits[diffs.index(d)]
    normal = [x for em in emits for x in [v or [ONE, ONE, ONE] for e, v in em] + [[ZERO, ZERO, ZERO]]]
    rest = [e for em in emits for e, v in em if e]
    args = []

    def hook(I, st, a, call):
        k = next((k for k, d in enumerate(diffs) if d == a[0]), None)
        if k is None:
            i = len([x for x in args if x[0] != ZERO])
            k = changed[i] if i < len(changed) else None
        args.append((a[0], k))
        items = [Agg((C(7) if e else number(v), N.mkopt(TRUE if e else FALSE, number(e) if e else None, opt[0]))) for e, v in (emits[k] if k is not None else [])]
        items.append(Agg((ZERO, N.mkopt(FALSE, None, opt[0]))))
        return st, IterV(('vec', SeqV(ArrList(items), C(len(items)))))
    M.I.intercept[f] = hook
    st, r = compress(M, st, SeqV(ArrList(ws), C(len(ws))))

    es = []
    for q in range(6):
        def mk(q=q):
            rr = random.Random('%s/%d' % (name, q))
            m = {}
            for a in [x for b in normal + rest for x in b]:
                at = a.as_atom()
                if at is not None:
                    m[at.args[0]] = rr.randint(0, 1) if q else 1
            last = 0
            for k, w in enumerate(ws):
                at = w.as_atom()
                if at is not None and at.args[0] not in m:
                    m[at.args[0]] = rr.getrandbits(32) | 1 << k
            return Ev(m)
        es.append(mk)
    n = panic_events(ck, key, M, 0, es)
    if st is None:
        ck.bad(key + '/returns', 'compress never returns for %d words' % len(ws))
        return
    if n:
        ck.unk(key + '/checks', '%d runtime checks not discharged' % n)
    for a, k in args:
        if k is None:
            ck.unk(key + '/words', 'the encoder is used %d times for %d words' % (len(args), len(ws)))
            return
        spec = (lambda x, y: lambda e: int(e.val(x)) ^ int(e.val(y)))(ws[k], ws[k - 1] if k else ZERO)
        d = differs(a, spec, es)
        if d:
            ck.bad('%s/word %d' % (key, k), 'the encoder is given 0x%08x, expected 0x%08x for words %s' % d)
            return
        if a == diffs[k] or st.ctx().equal(a, diffs[k]):
            ck.ok('%s/word %d' % (key, k), 'difference to the previous word')
        else:
            ck.unk('%s/word %d' % (key, k), repr(a)[:100])
    if not isinstance(r, SeqV) or r.len.cval() is None:
        ck.unk(key, 'result of unknown length')
        return
    exp = [None] * 4 + pack(normal, 3) + pack(rest, 5)
    if int(r.len.cval()) != len(exp):
        ck.bad(key + '/length', '%s bytes for %d values and %d remainders, expected %d' % (r.len.cval(), len(normal), len(rest), len(exp)))
        return
    bad = 0
    for i, w in enumerate(exp):
        if w is None:
            continue
        got = M.I.select(r.arr, C(i), st.ctx())
        if not isinstance(got, Poly):
            ck.unk('%s/byte %d' % (key, i), type(got).__name__)
            return
        if got == w:
            continue
        x = witness(got, w, es)
        if x:
            ck.bad('%s/byte %d' % (key, i), 'byte %d is %s, expected %s (%d values, %d remainders)' % (i, x[2], x[3], len(normal), len(rest)))
            return
        if not st.ctx().equal(got, w):
            ck.unk('%s/byte %d' % (key, i), repr(got)[:120])
            return
    ck.ok(key + '/bytes', '%d bytes from %d values and %d remainders' % (len(exp) - 4, len(normal), len(rest)))


def differs(a, spec, es):
    for mk in es:
        e = mk()
        try:
            x, y = int(e.val(a)), int(spec(e))
        except (Unknown, Domain):
            continue
        if x != y:
            return x, y, {k: v for k, v in e.env.items() if k.startswith('w')}
    return None


def pack(vals, n):
    stream = [b for v in vals for b in v]
    out = []
    for i in range(0, len(stream), 8):
        out.append(number(stream[i:i + 8]))
    return out
