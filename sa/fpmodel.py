"""Abstract runs of the library's public API."""
import lib
from eng.model import *
from eng import terms as T
from eng import interp as IN
from evalx import Ev, same, close, holds, verdict, Unknown, Domain

U32 = ('i', False, 32)
U8 = ('i', False, 8)
I16 = ('i', True, 16)


class Model:
    def __init__(self, ck=None, **kw):
        self.p = lib.program('rusty_chromaprint')
        self.I = new_interp(self.p, **kw)
        self.ck = ck
        if ck is not None:
            ck.scope.setdefault('crate', 'rusty_chromaprint')
            ck.scope['functions with MIR'] = sum(1 for x in self.p.inst if x.get('body'))

    def fn(self, path):
        r = self.p.find(path)
        if len(r) != 1:
            raise lib.Anchor('%s (%d instances)' % (path, len(r)))
        return r[0]

    def tid(self, name):
        for i, t in enumerate(self.p.ty):
            if t['name'] == name:
                return i
        raise lib.Anchor('type ' + name)

    def tid_complex(self):
        for i, t in enumerate(self.p.ty):
            if t['k'] == 'adt' and t['name'].endswith('Complex<f64>'):
                return i
        raise lib.Anchor('complex element type')

    def run(self, path, args, st=None, ctx='root'):
        return run(self.I, self.fn(path) if isinstance(path, str) else path, args, st, ctx)

    def preset(self, n, st=None):
        st, c = self.run(CFGP + 'preset_test%d' % n, [], st)
        st.mem[('cfg',)] = c
        return st, c

    def new(self, n=2, st=None):
        st, c = self.preset(n, st)
        st, f = self.run(FP + 'new', [Ref(('cfg',))], st)
        st.mem[('fp',)] = f
        return st

    def start(self, st, rate=C(11025), ch=C(1)):
        return self.run(FP + 'start', [Ref(('fp',)), rate, ch], st)

    def started(self, n=2, rate=C(11025), ch=C(1)):
        st = self.new(n)
        st, r = self.start(st, rate, ch)
        return st

    def samples(self, st, name, n):
        o = ('data', name)
        st.mem[o] = SeqV(ArrSym(name, self.tid('i16')), n)
        return Ref(o, (), (ZERO, n))

    def slice(self, st, name, arr, n):
        o = ('data', name)
        st.mem[o] = SeqV(arr, n)
        return Ref(o, (), (ZERO, n))

    def consume(self, st, sl):
        return self.run(FP + 'consume', [Ref(('fp',)), sl], st)[0]

    def finish(self, st):
        return self.run(FP + 'finish', [Ref(('fp',))], st)[0]

    def fingerprint(self, st):
        st, r = self.run(FP + 'fingerprint', [Ref(('fp',))], st)
        return st, r

    def seq(self, st, r):
        """SeqV behind a reference / box / value"""
        from eng.natives import seq_of
        return seq_of(self.I, st, r)

    def panics(self, since=0):
        return [e for e in self.I.events[since:] if e['kind'] == 'panic']

    def fields(self, v):
        """{field name: value} of a struct value"""
        t = self.p.ty[v.ty]
        fs = t['variants'][0]['fields']
        return {n: x for (n, _), x in zip(fs, v.f)}

    def where(self, e):
        return '%s in %s' % (self.p.span(e.get('span')), e.get('fn', '?'))


def err_variant(M, v):
    """name of enum variants per alt"""
    t = M.p.ty[v.ty]
    return [(t['variants'][k]['name'], g, f) for k, d, g, f in v.alts]


def rubato_contract(M):
    """external model: SincFixedIn::new succeeds iff ratio > 0 and the relative bound is >= 1 (rubato's documented contract)"""
    I = M.I
    prev = I.external

    def ext(I, st, inst, args, call):
        if inst['crate'] == 'rubato' and inst['path'].endswith('::new') and call.retty is not None and len(args) >= 2 \
                and isinstance(args[0], Poly) and isinstance(args[1], Poly):
            I.stats['external'].add(inst['path'])
            I.event('extern', st, name=inst['path'], args=tuple(I.snapshot(st, a) for a in args), span=call.span, inst=inst)
            c = st.ctx()
            good = c.simplify(band(flt0(-args[0]), fle0(ONE - args[1])))
            if good is not TRUE and len(args[0].t) == 1 and c.simplify(fle0(ONE - args[1])) is TRUE:
                (m, co), = args[0].t
                if co > 0 and all(c.holds(lt(ZERO, Poly.atom(T.getatom(a)))) for a, e in m):
                    good = TRUE
            v = I.build(call.retty, IN.UfGen(I, st, inst['path'], tuple(I.snapshot(st, a) for a in args)))
            if isinstance(v, Enum) and good is TRUE:
                t = M.p.ty[call.retty]
                okn = [i for i, x in enumerate(t['variants']) if x['name'] == 'Ok'][0]
                v = Enum([(okn, okn, TRUE, v.fields(okn))], v.ty)
            return st, v
        return prev(I, st, inst, args, call) if prev is not None else None
    I.external = ext
    return M


def leaves_differ(M, st, a, b, path=()):
    """paths below which two values of the same object differ (structurally)"""
    if a == b:
        return []
    if type(a) is type(b):
        if isinstance(a, Agg) and len(a.f) == len(b.f):
            r = []
            names = None
            if a.ty is not None and M.p.ty[a.ty]['k'] == 'adt' and M.p.ty[a.ty]['variants']:
                names = [n for n, _ in M.p.ty[a.ty]['variants'][0]['fields']]
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                r += leaves_differ(M, st, x, y, path + (names[i] if names and i < len(names) else str(i),))
            return r
        if isinstance(a, BoxV):
            return leaves_differ(M, st, a.inner, b.inner, path)
        if isinstance(a, SeqV):
            r = []
            if not st.ctx().equal(a.len, b.len):
                r.append((path + ('len',), a.len, b.len))
            if a.arr != b.arr:
                r.append((path + ('[]',), a.arr, b.arr))
            return r
        if isinstance(a, Poly) and st.ctx().equal(a, b):
            return []
        if isinstance(a, Bdd) and st.ctx().simplify(bnot(bxor(a, b))) is TRUE:
            return []
    return [(path, a, b)]


COUNT = [0]


def havoc(M, st, v, path=''):
    """replace every mutable scalar / sequence of the state by a symbol"""
    if isinstance(v, Agg):
        t = M.p.ty[v.ty] if v.ty is not None else None
        fts = [ft for _, ft in t['variants'][0]['fields']] if t and t['k'] == 'adt' and t['variants'] else [None] * len(v.f)
        return Agg([havoc_ty(M, st, x, ft, '%s.%d' % (path, i)) for i, (x, ft) in enumerate(zip(v.f, fts))], v.ty)
    if isinstance(v, BoxV):
        return BoxV(havoc(M, st, v.inner, path + '.b'), v.dyn)
    return v


def havoc_ty(M, st, v, ft, path):
    if isinstance(v, (Agg, BoxV)) and not (isinstance(v, BoxV) and isinstance(v.inner, SeqV)):
        return havoc(M, st, v, path)
    if isinstance(v, Poly) and ft is not None and M.I.numty(ft):
        COUNT[0] += 1
        return sym('old' + path, M.I.numty(ft))
    if isinstance(v, Bdd):
        COUNT[0] += 1
        return bsym('old' + path)
    if isinstance(v, SeqV):
        el = None
        x = M.I.select(v.arr, ZERO, st.ctx()) if v.len != ZERO else None
        ety = elem_ty(M, ft)
        if ety is not None and M.I.numty(ety):
            COUNT[0] += 1
            return SeqV(ArrSym('old' + path, ety), v.len if fixed(M, ft) else sym('old' + path + '.len', USIZE, 0, 1 << 40))
        return v
    if isinstance(v, BoxV) and isinstance(v.inner, SeqV):
        ety = elem_ty(M, ft)
        if ety is not None and M.I.numty(ety):
            COUNT[0] += 1
            return BoxV(SeqV(ArrSym('old' + path, ety), v.inner.len), v.dyn)
        return v
    return v


def fixed(M, ft):
    return M.p.ty[ft]['k'] in ('array', 'slice')


def elem_ty(M, ft):
    """element type of Vec<T> / VecDeque<T> / Box<[T]> / [T; N]"""
    if ft is None:
        return None
    t = M.p.ty[ft]
    if t['k'] in ('array', 'slice'):
        return t.get('elem')
    n = t['name']
    for i, x in enumerate(M.p.ty):
        if x['name'] and n.endswith('<%s>' % x['name']) or n.endswith('<[%s]>' % x['name']):
            return i
    return None


def fft_boundary(M, zero=False):
    """external model of the FFT (M.fft_base, M.fft_prefix rename the results of a later stream): the k-th transform of the run is recorded as an event (input sequence, path condition) and its
    result is the fresh complex array F<k> (or zeros)"""
    I = M.I
    prev = I.external

    def ext(I, st, inst, args, call):
        if inst['crate'] == 'rustfft' and '::process' in inst['path']:
            I.stats['external'].add(inst['path'])
            buf = args[1]
            v = M.seq(st, buf)
            if v is None:
                return None
            k = len(fft_log(M))
            I.event('fft', st, k=k, span=call.span, inst=inst, **{'in': v, 'assume': st.assume, 'fn': call.caller.inst['path'] if call.caller else '?'})
            from eng.natives import cont_of
            cv, setter, s, n, r = cont_of(I, st, buf)
            ety = M.tid_complex()
            k2 = k - getattr(M, 'fft_base', 0)
            F = ArrSym('%s%d' % (getattr(M, 'fft_prefix', 'F'), k2), ety) if not zero else ArrFill(Agg([ZERO, ZERO], ety))
            setter(SeqV(F if (s == ZERO and n == cv.len) else mkcopy(cv.arr, s, n, F, ZERO), cv.len))
            return st, UNIT_
        if prev is not None:
            return prev(I, st, inst, args, call)
        return None
    I.external = ext
    return M


def fft_log(M):
    return [e for e in M.I.events if e['kind'] == 'fft']


UNIT_ = Agg(())


def small_config(M, st, frame=16, overlap=10, ncoef=2, classifiers=(0,), coefs=None, preset=2):
    """a configuration built through the public builder from a preset's classifiers"""
    st, c = M.run(CFGP + 'preset_test%d' % preset, [], st)
    cls = [v for v in M.fields(c).values() if isinstance(v, SeqV) and isinstance(v.arr, ArrList) and v.arr.vals and isinstance(v.arr.vals[0], Agg)]
    if len(cls) != 1:
        raise lib.Anchor('classifier list of a preset')
    cl = cls[0].arr.vals
    st, c = M.run(CFGP + 'with_frame_size', [c, C(frame)], st)
    st, c = M.run(CFGP + 'with_frame_overlap', [c, C(overlap)], st)
    co = coefs or [T.fconst(0.25 + 0.5 * i) for i in range(ncoef)]
    st, c = M.run(CFGP + 'with_coefficients', [c, SeqV(ArrList(co), C(len(co)))], st)
    sel = [cl[i] for i in classifiers]
    st, c = M.run(CFGP + 'with_classifiers', [c, SeqV(ArrList(sel), C(len(sel)))], st)
    st.mem[('cfg',)] = c
    return st, c


def small(M, st=None, **kw):
    st, c = small_config(M, st, **kw)
    st, f = M.run(FP + 'new', [Ref(('cfg',))], st)
    st.mem[('fp',)] = f
    return st


# ---------------------------------------------------------------- rubato::SincFixedIn as a scripted contract
def resampler_boundary(M, written=(9, 0, 7, 16, 1), most=16):
    """SincFixedIn: `new` records its arguments; process_into_buffer takes exactly the current chunk size of input frames, returns that number and writes a
    scripted number of frames of the fresh array R<k>; the buffers must have the lengths the documentation requires, otherwise it fails. Calls are recorded."""
    I = M.I
    prev = I.external
    for t in M.p.ty:
        if t['k'] == 'adt' and t['name'].startswith('rubato::SincFixedIn'):
            t['variants'] = None
    M.rs_calls = []

    def res(t, ok, st, good=True):
        vs = M.p.ty[t]['variants']
        for i, v in enumerate(vs):
            if v['name'] == ('Ok' if good else 'Err'):
                if not good:
                    ok = I.build(v['fields'][0][1], IN.UfGen(I, st, 'rubato error', ()))
                return Enum([(i, v['discr'], TRUE, (ok,))], t)
        raise lib.Anchor('Result')

    def cur(st, ref):
        v = I.deref_val(st, ref)
        while isinstance(v, Ref):
            v = I.deref_val(st, v)
        return v if isinstance(v, Opq) and v.name == 'resampler' else None

    def put(st, ref, val):
        while isinstance(I.deref_val(st, ref), Ref):
            ref = I.deref_val(st, ref)
        I.write_to(st, [(TRUE, ref.obj, ref.path, None, None)], val)

    def ext(I, st, inst, args, call):
        if inst['crate'] != 'rubato':
            return prev(I, st, inst, args, call) if prev is not None else None
        p = inst['path']
        last = p.rsplit('::', 1)[-1]
        rec = dict(what=last, pc=st.pc, span=call.span, assume=st.assume)
        if last == 'new':
            gen = sum(1 for e in M.rs_calls if e['what'] in ('new', 'reset')) + 1
            M.rs_calls.append(dict(rec, args=tuple(I.snapshot(st, a) for a in args), gen=gen))
            I.stats['external'].add(p)
            return st, res(call.retty, Opq('resampler', (C(gen), args[3], args[3], ZERO)), st)
        v = cur(st, args[0]) if args else None
        if v is None:
            M.rs_calls.append(dict(rec, what='?' + last))
            return None
        gen, chunk, mx, k = v.args
        if last == 'input_frames_next':
            return st, chunk
        if last == 'input_frames_max':
            return st, mx
        if last == 'output_frames_next':
            return st, C(most)
        if last == 'output_frames_max':
            return st, C(most + 3)
        if last == 'reset':
            g2 = sum(1 for e in M.rs_calls if e['what'] in ('new', 'reset')) + 1
            put(st, args[0], Opq('resampler', (C(g2), mx, mx, k)))
            M.rs_calls.append(rec)
            return st, UNIT_
        if last == 'set_chunk_size':
            n = args[1]
            good = n.is_const() and mx.is_const() and 0 < n.cval() <= mx.cval()
            if not (n.is_const() and mx.is_const()):
                M.rs_calls.append(dict(rec, what='?' + last))
                return None
            M.rs_calls.append(dict(rec, n=n, good=good))
            if good:
                put(st, args[0], Opq('resampler', (gen, n, mx, k)))
            return st, res(call.retty, UNIT_, st, good)
        if last in ('process_into_buffer', 'process_partial_into_buffer'):
            win = M.seq(st, args[1])
            if last.startswith('process_partial'):
                M.rs_calls.append(dict(rec, what='?' + last))
                return None
            wo = M.seq(st, args[2])
            if win is None or wo is None or not win.len.is_const() or not wo.len.is_const():
                M.rs_calls.append(dict(rec, what='?' + last))
                return None
            if win.len != ONE or wo.len != ONE:
                M.rs_calls.append(dict(rec, good=False, why='%s input and %s output channels' % (win.len, wo.len)))
                return st, res(call.retty, None, st, False)
            x = M.seq(st, I.select(win.arr, ZERO, st.ctx()))
            from eng.natives import cont_of
            seqv, setter, s0, n0, r0 = cont_of(I, st, args[2])
            ov = I.select(seqv.arr, s0, st.ctx())
            if not isinstance(ov, (SeqV, Ref)):         # slice::from_mut of the vector itself
                ov, one = seqv, True
            else:
                one = False
            o = ov if isinstance(ov, SeqV) else M.seq(st, ov)
            if x is None or o is None or not x.len.is_const() or not o.len.is_const():
                M.rs_calls.append(dict(rec, what='?' + last))
                return None
            if x.len.cval() < chunk.cval() or o.len.cval() < most:
                M.rs_calls.append(dict(rec, good=False, why='%s input frames for a chunk of %s, room for %s of %s output frames' % (x.len, chunk, o.len, most)))
                return st, res(call.retty, None, st, False)
            w = written[int(k.cval()) % len(written)]
            M.rs_calls.append(dict(rec, good=True, input=x, n=chunk, k=int(k.cval()), w=w, gen=gen))
            R = ArrSym('R%d' % int(k.cval()), M.tid('f64'))
            no = SeqV(mkcopy(o.arr, ZERO, C(w), R, ZERO), o.len)
            if one:
                setter(no)
            elif isinstance(ov, SeqV):
                setter(SeqV(I.store(seqv.arr, s0, no, st.ctx()), seqv.len))
            else:
                c2 = cont_of(I, st, ov)
                c2[1](no)
            put(st, args[0], Opq('resampler', (gen, chunk, mx, k + 1)))
            t = M.p.ty[call.retty]
            okt = next(v['fields'][0][1] for v in t['variants'] if v['name'] == 'Ok')
            return st, res(call.retty, Agg([chunk, C(w)], okt), st)
        M.rs_calls.append(dict(rec, what='?' + last))
        return None
    I.external = ext
    return M


# ---------------------------------------------------------------- vectors passed between the stages
def stages(M, cut=None, replace=None):
    """records every vector handed to a stage (trait method `consume` of FeatureVectorConsumer): dict(stage, v, pc, assume, n). With cut = a predicate over the record the
    receiving stage is not run for the records it holds for; with replace(record) = a reference, it is run on that data instead."""
    log = []

    def mk(x):
        def h(I, st, args, call):
            v = M.seq(st, args[1])
            rec = dict(stage=x['path'], v=v, pc=st.pc, assume=st.assume, n=None if v is None or not v.len.is_const() else int(v.len.cval()), quiet=I.quiet, at=len(fft_log(M)))
            log.append(rec)
            if cut is not None and cut(rec):
                return st, UNIT_
            if replace is not None:
                r = replace(rec, st)
                if r is not None:
                    args[1] = r
            return NotImplemented
        return h
    for i, x in enumerate(M.p.inst):
        if x['path'].endswith('FeatureVectorConsumer>::consume'):
            M.I.intercept[i] = mk(x)
    return log
