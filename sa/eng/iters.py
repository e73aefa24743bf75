"""Iterator adaptors with a random-access view, and the consumers over them."""
from .terms import *
from . import terms as T
from .values import *
from . import interp as IN
from .natives import *
from .natives import nat, TABLE, ctxadd, slice_ref, mkopt, pmin, pmax, panic_if, Site, val, nty, arith, cont_of, seq_append, load, split_gated, range_of, UNIT


def as_iter(I, st, v):
    """IterV view of an iterator value, or None"""
    if isinstance(v, IterV):
        return v
    if isinstance(v, Agg) and v.ty is not None and isinstance(v.ty, int):
        p = I.adt_path(v.ty) or ''
        b = p.split('::')[-1]
        if p.startswith('std::ops') or p.startswith('core::ops') or b.startswith('Range'):
            if b == 'Range' and all(isinstance(x, Poly) for x in v.f):
                return IterV(('range', v.f[0], v.f[1]))
            if b == 'RangeFrom':
                return IterV(('rangefrom', v.f[0]))
            if b == 'RangeInclusive' and isinstance(v.f[0], Poly) and (len(v.f) < 3 or v.f[2] is FALSE):
                return IterV(('range', v.f[0], v.f[1] + 1))
    return None


def as_intoiter(I, st, v, mut=False):
    it = as_iter(I, st, v)
    if it is not None:
        return it
    if isinstance(v, SeqV):
        return IterV(('vec', v))
    if isinstance(v, BoxV) and isinstance(v.inner, SeqV):
        return IterV(('vec', v.inner))
    if isinstance(v, Ref):
        r = slice_ref(I, st, v)
        if r is not None:
            return IterV(('slice', r))
    return None


def dlen(I, st, d):
    """number of elements of a fresh descriptor (Poly), or None"""
    k = d[0]
    ctx = st.ctx()
    if k == 'slice':
        return d[1].view[1]
    if k == 'range':
        return pmax(ctx, d[2] - d[1], ZERO)
    if k == 'vec':
        return d[1].len
    if k == 'once':
        return ONE
    if k == 'empty':
        return ZERO
    if k in ('repeat', 'rangefrom', 'cycle'):
        return None
    if k in ('rev', 'enumerate', 'map', 'copied', 'inspect'):
        return it_remaining(I, st, d[1])
    if k == 'zip':
        a, b = it_remaining(I, st, d[1]), it_remaining(I, st, d[2])
        if a is None or b is None:
            return a if b is None else b
        return pmin(ctx, a, b)
    if k == 'take':
        n = it_remaining(I, st, d[1])
        return d[2] if n is None else pmin(ctx, n, d[2])
    if k == 'skip':
        n = it_remaining(I, st, d[1])
        return None if n is None else pmax(ctx, n - d[2], ZERO)
    if k == 'stepby':
        n = it_remaining(I, st, d[1])
        return None if n is None else idiv(n + d[2] - 1, d[2])
    if k == 'chunks':
        return idiv(d[1].view[1] + d[2] - 1, d[2])
    if k == 'chunks_exact':
        return idiv(d[1].view[1], d[2])
    if k == 'windows':
        return pmax(ctx, d[1].view[1] - d[2] + 1, ZERO)
    if k == 'chain':
        a, b = it_remaining(I, st, d[1]), it_remaining(I, st, d[2])
        return None if a is None or b is None else a + b
    return None


INFINITE = ('repeat', 'rangefrom', 'cycle')


def infinite(d):
    if d[0] in INFINITE:
        return True
    if d[0] in ('map', 'enumerate', 'copied', 'skip', 'stepby', 'inspect'):
        return infinite(d[1].desc)
    if d[0] == 'zip':
        return infinite(d[1].desc) and infinite(d[2].desc)
    if d[0] == 'chain':
        return infinite(d[1].desc) or infinite(d[2].desc)
    return False


def it_remaining(I, st, it):
    n = dlen(I, st, it.desc)
    if n is None:
        return None
    return n - it.pos - it.back


def elem_at(I, st, it, k, ctx):
    """k-th remaining element -> (st, value); may run closures"""
    return delem(I, st, it.desc, it.pos + k, ctx)


def delem(I, st, d, i, ctx):
    k = d[0]
    if k == 'slice':
        r = d[1]
        return st, Ref(r.obj, r.path + (('x', r.view[0] + i),))
    if k in ('range', 'rangefrom'):
        return st, d[1] + i
    if k == 'vec':
        return st, I.select(d[1].arr, i, st.ctx())
    if k in ('once', 'repeat'):
        return st, d[1]
    if k == 'rev':
        n = it_remaining(I, st, d[1])
        return elem_at(I, st, d[1], n - 1 - i, ctxadd(ctx, 'r'))
    if k == 'enumerate':
        s, v = elem_at(I, st, d[1], i, ctxadd(ctx, 'e'))
        return s, (Agg((i, v)) if s is not None else None)
    if k == 'map':
        s, v = elem_at(I, st, d[1], i, ctxadd(ctx, 'm'))
        if s is None:
            return None, None
        return I.call_fn(s, d[2], [v], ctxadd(ctx, 'mf'))
    if k == 'inspect':
        s, v = elem_at(I, st, d[1], i, ctxadd(ctx, 'm'))
        if s is None:
            return None, None
        o = ('insp', ctx)
        s.mem[o] = v
        s, _ = I.call_fn(s, d[2], [Ref(o)], ctxadd(ctx, 'mf'))
        return s, v
    if k == 'copied':
        s, v = elem_at(I, st, d[1], i, ctxadd(ctx, 'c'))
        if s is None:
            return None, None
        return s, load(I, s, v)
    if k == 'zip':
        s, a = elem_at(I, st, d[1], i, ctxadd(ctx, 'a'))
        if s is None:
            return None, None
        s, b = elem_at(I, s, d[2], i, ctxadd(ctx, 'b'))
        if s is None:
            return None, None
        return s, Agg((a, b))
    if k == 'take':
        return elem_at(I, st, d[1], i, ctxadd(ctx, 't'))
    if k == 'skip':
        return elem_at(I, st, d[1], i + d[2], ctxadd(ctx, 's'))
    if k == 'stepby':
        return elem_at(I, st, d[1], i * d[2], ctxadd(ctx, 'sb'))
    if k in ('chunks', 'chunks_exact'):
        r = d[1]
        n = d[2]
        if k == 'chunks':
            n = pmin(st.ctx(), n, r.view[1] - i * d[2])
        return st, Ref(r.obj, r.path, (r.view[0] + i * d[2], n))
    if k == 'windows':
        r = d[1]
        return st, Ref(r.obj, r.path, (r.view[0] + i, d[2]))
    if k == 'chain':
        n = it_remaining(I, st, d[1])
        g = st.ctx().simplify(lt(i, n))
        if g is TRUE:
            return elem_at(I, st, d[1], i, ctxadd(ctx, 'ca'))
        if g is FALSE:
            return elem_at(I, st, d[2], i - n, ctxadd(ctx, 'cb'))
        s1, s2 = st.fork(), st.fork()
        s1.add_pc(g)
        s2.add_pc(bnot(g))
        s1, a = elem_at(I, s1, d[1], i, ctxadd(ctx, 'ca'))
        s2, b = elem_at(I, s2, d[2], i - n, ctxadd(ctx, 'cb'))
        return join2(s1, a, s2, b, ctx)
    raise IN.Unsupported('iterator ' + str(k))


def join2(s1, a, s2, b, ctx):
    if s1 is None:
        return s2, b
    if s2 is None:
        return s1, a
    t = ('rv', ctx, 'j')
    s1.mem[t] = a
    s2.mem[t] = b
    s = IN.merge_states(s1, s2)
    return s, s.mem.pop(t)


# ------------------------------------------------------------------ constructors
def typed_self(I, S):
    t = getattr(S.call, 'argtys', None)
    return t[0] if t else None


@nat('IntoIterator::into_iter')
def into_iter(I, st, S, a):
    v = a[0]
    it = as_intoiter(I, st, v)
    if it is None:
        return NotImplemented
    if isinstance(v, Agg) and (I.adt_path(v.ty) or '').endswith('::Range'):
        return st, v
    return st, it


@nat('slice::iter', 'slice::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', 'Iter::new', 'IterMut::new')
def slice_iter(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    return st, IterV(('slice', r))


@nat('slice::chunks', 'slice::chunks_mut', 'slice::chunks_exact', 'slice::chunks_exact_mut', 'slice::windows')
def slice_chunks(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    n = I.as_int(a[1])
    if not panic_if(I, st, eq0(n), 'chunk_size', S):
        return None, None
    k = 'windows' if S.key.endswith('windows') else ('chunks_exact' if 'exact' in S.key else 'chunks')
    return st, IterV((k, r, n))


@nat('ChunksExact::remainder')
def chunks_rem(I, st, S, a):
    it = val(I, st, a[0])
    if not isinstance(it, IterV) or it.desc[0] != 'chunks_exact':
        return NotImplemented
    r, n = it.desc[1], it.desc[2]
    q = idiv(r.view[1], n) * n
    return st, Ref(r.obj, r.path, (r.view[0] + q, r.view[1] - q))


@nat('iter::once')
def once(I, st, S, a):
    return st, IterV(('once', a[0]))


@nat('iter::repeat')
def repeat(I, st, S, a):
    return st, IterV(('repeat', a[0]))


@nat('iter::empty')
def empty(I, st, S, a):
    return st, IterV(('empty',))


def adaptor(kind):
    def f(I, st, S, a):
        it = as_iter(I, st, a[0])
        if it is None:
            return NotImplemented
        if kind == 'rev' and infinite(it.desc):
            return NotImplemented
        if kind == 'zip':
            b = as_intoiter(I, st, a[1])
            if b is None:
                return NotImplemented
            return st, IterV(('zip', it, b))
        if kind == 'chain':
            b = as_intoiter(I, st, a[1])
            if b is None:
                return NotImplemented
            return st, IterV(('chain', it, b))
        if kind == 'stepby':
            if not panic_if(I, st, eq0(a[1]), 'step_by', S):
                return None, None
        if kind == 'take' and it.desc[0] == 'repeat':
            return st, IterV(('vec', SeqV(ArrFill(it.desc[1]), a[1])))
        return st, IterV((kind, it) + tuple(a[1:]))
    return f


for _m, _k in (('rev', 'rev'), ('enumerate', 'enumerate'), ('map', 'map'), ('zip', 'zip'), ('take', 'take'), ('skip', 'skip'),
               ('copied', 'copied'), ('cloned', 'copied'), ('step_by', 'stepby'), ('chain', 'chain'), ('inspect', 'inspect')):
    TABLE['Iterator::' + _m] = adaptor(_k)


@nat('Iterator::by_ref')
def by_ref(I, st, S, a):
    return st, a[0]


@nat('iter::zip')
def iter_zip(I, st, S, a):
    x, y = as_intoiter(I, st, a[0]), as_intoiter(I, st, a[1])
    if x is None or y is None:
        return NotImplemented
    return st, IterV(('zip', x, y))


# ------------------------------------------------------------------ next
def inner_ref(I, st, r):
    """follow &mut I where I itself is a reference to an iterator"""
    n = 0
    while isinstance(r, Ref) and n < 5:
        v = I.deref_val(st, r)
        if isinstance(v, Ref):
            r = v
            n += 1
        else:
            return r, v
    return r, None


@nat('Iterator::next', 'DoubleEndedIterator::next_back', 'Iterator::nth', 'RangeIteratorImpl::spec_next')
def it_next(I, st, S, a):
    r, v = inner_ref(I, st, a[0])
    if v is None:
        return NotImplemented
    if isinstance(v, Gated):
        return NotImplemented
    it = as_iter(I, st, v)
    if it is None:
        return NotImplemented
    israng = not isinstance(v, IterV)
    nback = S.key.endswith('next_back')
    nn = I.as_int(a[1]) if S.key.endswith('nth') else ZERO
    n = it_remaining(I, st, it)
    g = TRUE if n is None else st.ctx().simplify(lt(nn, n))
    if n is None and not infinite(it.desc):
        return NotImplemented
    s1 = None
    e = None
    if g is not FALSE:
        s1 = st.fork() if g is not TRUE else st
        s1.add_pc(g)
        if nback:
            s1, e = elem_at(I, s1, it, n - 1, ctxadd(S.ctx, 'n'))
        else:
            s1, e = elem_at(I, s1, it, nn, ctxadd(S.ctx, 'n'))
        if s1 is not None:
            if israng and it.desc[0] in ('range', 'rangefrom') and not (I.adt_path(v.ty) or '').endswith('Inclusive'):
                nv = Agg((v.f[0], v.f[1] - 1) if nback else (v.f[0] + nn + 1,) + v.f[1:], v.ty)
            elif nback:
                nv = IterV(it.desc, it.pos, it.back + 1)
            else:
                nv = IterV(it.desc, it.pos + nn + 1, it.back)
            I.write_to(s1, [(TRUE, r.obj, r.path, None, None)], nv)
    s0 = None
    if g is not TRUE:
        s0 = st if s1 is None else st.fork()
        s0.add_pc(bnot(g))
        if S.key.endswith('nth'):
            I.write_to(s0, [(TRUE, r.obj, r.path, None, None)], IterV(it.desc, it.pos + n, it.back))
        elif s1 is not None and not israng:
            pass
    if s1 is None and s0 is None:
        return None, None
    if s0 is None:
        return s1, mkopt(TRUE, e, S.retty)
    if s1 is None:
        return s0, mkopt(FALSE, None, S.retty)
    t = ('rv', S.ctx, 'n')
    s1.mem[t] = mkopt(TRUE, e, S.retty)
    s0.mem[t] = mkopt(FALSE, None, S.retty)
    s = IN.merge_states(s1, s0)
    return s, s.mem.pop(t)


@nat('Iterator::size_hint')
def size_hint(I, st, S, a):
    r, v = inner_ref(I, st, a[0])
    it = as_iter(I, st, v) if v is not None else None
    if it is None:
        return NotImplemented
    n = it_remaining(I, st, it)
    if n is None:
        return NotImplemented
    ot = I.ty[S.retty]['elems'][1]
    return st, Agg((n, mkopt(TRUE, n, ot)), S.retty)


# ------------------------------------------------------------------ consumption
def find_next(I, selfty):
    """instance of Iterator::next for a type"""
    c = getattr(I, '_nextcache', None)
    if c is None:
        c = I._nextcache = {}
        for i, x in enumerate(I.p.inst):
            if x['path'].endswith('Iterator>::next') and x.get('body'):
                t = x['body']['locals'][1]
                to = I.ty[t].get('to')
                if to is not None:
                    c.setdefault(to, i)
    return c.get(selfty)


def foreach(I, st, itv, step, ctx, selfty=None, where='iterator'):
    """run step(st, elem, ctx) -> {'back': st, key: st...} over all elements; returns {'done': st, key...}"""
    from .loops import do_loop
    it = as_iter(I, st, itv)
    if it is not None:
        n0 = it_remaining(I, st, it)
        if n0 is None and not infinite(it.desc):
            return None
        o = ('itc', ctx)
        st.mem[o] = ZERO
        I.objty[o] = None

        def body(s, label):
            pos = s.mem[o]
            c = ctxadd(ctx, label)
            g = TRUE if n0 is None else s.ctx().simplify(lt(pos, n0))
            outs = {}
            if g is not TRUE:
                d = s.fork()
                d.add_pc(bnot(g))
                outs['done'] = d
            if g is FALSE:
                return outs
            s.add_pc(g)
            s, e = elem_at(I, s, it, pos, c)
            if s is None:
                return outs
            for k, s2 in step(s, e, c).items():
                if k == 'back':
                    s2.mem[o] = pos + 1
                outs[k] = s2
            return outs
    else:
        nx = find_next(I, selfty) if selfty is not None else None
        if nx is None:
            return None
        o = ('ito', ctx)
        st.mem[o] = itv
        I.objty[o] = selfty

        def body(s, label):
            c = ctxadd(ctx, label)
            s, e = I.call(nx, [Ref(o)], s, ctxadd(c, 'nx'))
            outs = {}
            if s is None:
                return outs
            if not isinstance(e, Enum):
                raise IN.Unsupported('iterator next result')
            g = s.ctx().simplify(e.guard(1))
            if g is not TRUE:
                d = s.fork()
                d.add_pc(bnot(g))
                outs['done'] = d
            if g is FALSE:
                return outs
            s.add_pc(g)
            for k, s2 in step(s, e.fields(1)[0], c).items():
                outs[k] = s2
            return outs
    outs = do_loop(I, st, body, ctx, where)
    for s in outs.values():
        s.mem.pop(o, None)
    return outs


def pure_elems(I, st, it, ctx):
    """(n, j, value of element j) when producing elements has no side effect; else None"""
    if it is None:
        return None
    n = it_remaining(I, st, it)
    if n is None:
        return None
    c = n.cval()
    if c is not None and c <= 40:
        vals = []
        s = st
        ne = len(I.events)
        for i in range(int(c)):
            s1 = s.fork()
            s1, v = elem_at(I, s1, it, C(i), ctxadd(ctx, 'p', i))
            if s1 is None or not same_mem(st, s1):
                del I.events[ne:]
                return None
            s = s1
            vals.append(v)
        return n, None, vals, s
    j = sym('e%d' % ctx, USIZE, 0, 1 << 62)
    s = st.fork()
    ne = len(I.events)
    s.add_pc(band(le(ZERO, j), lt(j, n)))
    if s.pc is FALSE:
        return None
    try:
        s1, v = elem_at(I, s, it, j, ctxadd(ctx, 'p'))
    except IN.Unsupported:
        del I.events[ne:]
        return None
    if s1 is None or not same_mem(st, s1):
        del I.events[ne:]
        return None
    return n, j, v, st


def same_mem(a, b):
    for o, v in a.mem.items():
        w = b.mem.get(o)
        if w is not v and w != v:
            return False
    return True


def iter_arr(I, st, p):
    n, j, v, s = p
    if j is None:
        return ArrList(v)
    if isinstance(v, Poly) or isinstance(v, (Agg, Bdd, SeqV)):
        # contiguous copy of an existing array?
        at = v.as_atom() if isinstance(v, Poly) else None
        if at is not None and at.kind == 'elem' and not at.args[2] and isinstance(at.args[0], Arr):
            off = at.args[1] - j
            if j.as_atom().id not in off.deps() and j.as_atom().id not in deps_of(at.args[0]):
                return mkshift(at.args[0], off)
        if not (deps_of(v) & frozenset([j.as_atom().id])):
            return ArrFill(v)
        return ArrComp(ArrList(()), ZERO, n, j, v)
    return None


def src_arr(I, st, it):
    """array term backing a slice-like iterator of values, without going element by element"""
    d = it.desc
    if it.back != ZERO:
        return None
    if d[0] == 'vec':
        return mkshift(d[1].arr, it.pos), d[1].len - it.pos
    if d[0] == 'copied' and isinstance(d[1], IterV) and d[1].desc[0] == 'slice' and it.pos == ZERO and d[1].back == ZERO:
        r = d[1].desc[1]
        s = I.deref_val(st, r)
        if isinstance(s, SeqV):
            return mkshift(s.arr, d[1].pos), s.len - d[1].pos
    if d[0] == 'slice':
        return None
    return None


def gather(I, st, itv, ctx, selfty):
    """-> (st, SeqV) with all elements"""
    it = as_iter(I, st, itv)
    if it is not None:
        sa = src_arr(I, st, it)
        if sa is not None:
            return st, SeqV(sa[0], sa[1])
        p = pure_elems(I, st, it, ctx)
        if p is not None:
            arr = iter_arr(I, st, p)
            if arr is not None:
                return p[3], SeqV(arr, p[0])
    o = ('col', ctx)
    st.mem[o] = SeqV(ArrList(()), ZERO)

    def step(s, e, c):
        v = s.mem[o]
        s.mem[o] = SeqV(I.store(v.arr, v.len, e, s.ctx()), v.len + 1)
        return {'back': s}
    outs = foreach(I, st, itv, step, ctxadd(ctx, 'f'), selfty)
    if outs is None:
        return NotImplemented
    s = outs.get('done')
    if s is None:
        return None, None
    return s, s.mem.pop(o)


@nat('Iterator::collect', 'FromIterator::from_iter', 'SpecFromIter::from_iter')
def collect(I, st, S, a):
    p = (I.adt_path(S.retty) or '').split('::')[-1]
    if p not in ('Vec', 'VecDeque', 'Box'):
        return NotImplemented
    v = a[0]
    ty = typed_self(I, S)
    if S.key != 'Iterator::collect' and as_iter(I, st, v) is None:
        it = as_intoiter(I, st, v)
        if it is not None:
            v = it
    r = gather(I, st, v, ctxadd(S.ctx, 'col'), ty)
    if r is NotImplemented:
        return r
    s, x = r
    if s is None:
        return None, None
    return s, BoxV(x) if p == 'Box' else x


@nat('Extend::extend')
def extend(I, st, S, a):
    c = cont_of(I, st, a[0]) if isinstance(a[0], Ref) else None
    if c is None:
        return NotImplemented
    itv = a[1]
    if as_iter(I, st, itv) is None:
        it = as_intoiter(I, st, itv)
        if it is not None:
            itv = it
    it = as_iter(I, st, itv)
    # references are copied out (Extend<&T>)
    if it is not None and it.desc[0] == 'slice':
        itv = IterV(('copied', it))
    ty = S.call.argtys[1] if hasattr(S.call, 'argtys') else None
    if it is None or True:
        s, x = (st, None)
        if getattr(I, 'eager', False) == 'lossy' and it is not None and any(p.desc[0] == 'unknown' for p in flatten(it)):
            n = fresh('lost.len', USIZE, 0, 1 << 40)
            ety = next((e for e, y in enumerate(I.ty) if y['name'] and (I.ty[I.ty[S.call.argtys[0]].get('to', 0)]['name'] or '').endswith('<%s>' % y['name']) and I.numty(e)), None)
            if ety is None:
                return NotImplemented
            c[1](seq_append(I, st, c[0], ArrSym('lost' + str(n.as_atom().id), I.numty(ety)), n))
            return st, UNIT
        r = gather(I, st, itv, ctxadd(S.ctx, 'ext'), ty)
        if r is NotImplemented:
            return r
        s, x = r
        if s is None:
            return None, None
    c = cont_of(I, s, a[0])
    I.event('bulk', s, how='extend', dst=c[4], src=x, span=S.span)
    c[1](seq_append(I, s, c[0], x.arr, x.len))
    return s, UNIT


@nat('Iterator::for_each')
def for_each(I, st, S, a):
    fo = ('fn', S.ctx)
    st.mem[fo] = a[1]

    def step(s, e, c):
        s, _ = I.call_fn(s, Ref(fo), [e], ctxadd(c, 'f'))
        return {} if s is None else {'back': s}
    outs = foreach(I, st, a[0], step, ctxadd(S.ctx, 'fe'), typed_self(I, S))
    if outs is None:
        st.mem.pop(fo, None)
        return NotImplemented
    s = outs.get('done')
    if s is None:
        return None, None
    s.mem.pop(fo, None)
    return s, UNIT


@nat('Iterator::fold')
def fold(I, st, S, a):
    return do_fold(I, st, a[0], a[1], a[2], S, typed_self(I, S), S.retty)


def do_fold(I, st, itv, init, fn, S, selfty, accty):
    fo, ao = ('fn', S.ctx), ('acc', S.ctx)
    st.mem[fo] = fn
    st.mem[ao] = init
    I.objty[ao] = accty

    def step(s, e, c):
        acc = s.mem[ao]
        s, v = I.call_fn(s, Ref(fo), [acc, e], ctxadd(c, 'f'))
        if s is None:
            return {}
        s.mem[ao] = v
        return {'back': s}
    outs = foreach(I, st, itv, step, ctxadd(S.ctx, 'fo'), selfty)
    if outs is None:
        st.mem.pop(fo, None)
        st.mem.pop(ao, None)
        return NotImplemented
    s = outs.get('done')
    if s is None:
        return None, None
    s.mem.pop(fo, None)
    return s, s.mem.pop(ao)


@nat('Iterator::sum', 'Sum::sum', 'Iterator::product')
def it_sum(I, st, S, a):
    if I.kind(S.retty) not in ('int', 'float'):
        return NotImplemented
    nt = I.numty(S.retty)
    it = as_iter(I, st, a[0])
    prod = S.key.endswith('product')
    p = pure_elems(I, st, it, ctxadd(S.ctx, 'sum')) if it is not None else None
    if p is not None:
        n, j, v, s = p
        if j is None:
            acc = ONE if prod else ZERO
            for x in v:
                x = val(I, s, x)
                s, acc = arith(I, s, S, 'Mul' if prod else 'Add', acc, x, nt)
                if s is None:
                    return None, None
            return s, acc
        if not prod:
            sc = st.fork()
            sc.add_pc(band(le(ZERO, j), lt(j, n)))
            v = val(I, sc, v)
            if isinstance(v, Poly):
                if nt[0] == 'i':
                    lo, hi = int_range(nt)
                    l, h = interval(v)
                    ov = FALSE
                    if h is None or l is None:
                        ov = bop('sumoverflow', (n, v))
                    else:
                        ov = bor(lt(C(hi), n * C(h)) if h > 0 else FALSE, lt(n * C(l), C(lo)) if l < 0 else FALSE)
                    if not panic_if(I, st, ov, 'overflow:Add', S, attainable=True):
                        return None, None
                return st, mksum(j, n, v)
    ao = ('acc', S.ctx)
    st.mem[ao] = ONE if prod else ZERO
    I.objty[ao] = S.retty

    def step(s, e, c):
        s, v = arith(I, s, S, 'Mul' if prod else 'Add', s.mem[ao], val(I, s, e), nt)
        if s is None:
            return {}
        s.mem[ao] = v
        return {'back': s}
    outs = foreach(I, st, a[0], step, ctxadd(S.ctx, 'su'), typed_self(I, S))
    if outs is None:
        st.mem.pop(ao, None)
        return NotImplemented
    s = outs.get('done')
    if s is None:
        return None, None
    return s, s.mem.pop(ao)


@nat('Iterator::count')
def it_count(I, st, S, a):
    it = as_iter(I, st, a[0])
    n = it_remaining(I, st, it) if it is not None else None
    if n is None:
        return NotImplemented
    return st, n


def search(kind):
    def f(I, st, S, a):
        r, v = (a[0], a[0]) if not isinstance(a[0], Ref) else inner_ref(I, st, a[0])
        if v is None or as_iter(I, st, v) is None:
            return NotImplemented
        it = as_iter(I, st, v)
        fo, ro = ('fn', S.ctx), ('res', S.ctx)
        st.mem[fo] = a[1]
        st.mem[ro] = UNDEF
        po = ('cnt', S.ctx)
        st.mem[po] = ZERO

        def step(s, e, c):
            arg = e
            if kind == 'find':
                eo = ('el', c)
                s.mem[eo] = e
                arg = Ref(eo)
            s, b = I.call_fn(s, Ref(fo), [arg], ctxadd(c, 'f'))
            if s is None:
                return {}
            s.mem.pop(('el', c), None)
            outs = {}
            if kind == 'find_map':
                if not isinstance(b, Enum):
                    raise IN.Unsupported('find_map')
                hit = b.guard(1)
            else:
                hit = I.as_bool(b)
                if kind == 'all':
                    hit = bnot(hit)
            hit = s.ctx().simplify(hit)
            if hit is not FALSE:
                h = s if hit is TRUE else s.fork()
                h.add_pc(hit)
                h.mem[ro] = e if kind == 'find' else (h.mem[po] if kind == 'position' else (b.fields(1)[0] if kind == 'find_map' else ZERO))
                outs['hit'] = h
            if hit is not TRUE:
                s.add_pc(bnot(hit))
                s.mem[po] = s.mem[po] + 1
                outs['back'] = s
            return outs
        outs = foreach(I, st, it, step, ctxadd(S.ctx, 'se'))
        if outs is None:
            return NotImplemented
        h, d = outs.get('hit'), outs.get('done')
        t = ('rv', S.ctx, 's')
        res = None
        for s, hit in ((h, True), (d, False)):
            if s is None:
                continue
            x = s.mem.get(ro, UNDEF)
            if kind == 'any':
                s.mem[t] = TRUE if hit else FALSE
            elif kind == 'all':
                s.mem[t] = FALSE if hit else TRUE
            else:
                s.mem[t] = mkopt(TRUE if hit else FALSE, x, S.retty)
            for o in (fo, ro, po):
                s.mem.pop(o, None)
            res = IN.merge_states(res, s)
        if res is None:
            return None, None
        return res, res.mem.pop(t)
    return f


for _k in ('any', 'all', 'find', 'position', 'find_map'):
    TABLE['Iterator::' + _k] = search(_k)


@nat('Iterator::last')
def it_last(I, st, S, a):
    it = as_iter(I, st, a[0])
    n = it_remaining(I, st, it) if it is not None else None
    if n is None:
        return NotImplemented
    g = st.ctx().simplify(lt(ZERO, n))
    if g is FALSE:
        return st, mkopt(g, None, S.retty)
    s, v = elem_at(I, st, it, n - 1, ctxadd(S.ctx, 'l'))
    return s, mkopt(g, v, S.retty)


@nat('Iterator::max', 'Iterator::min')
def it_max(I, st, S, a):
    it = as_iter(I, st, a[0])
    p = pure_elems(I, st, it, ctxadd(S.ctx, 'mx')) if it is not None else None
    if p is None:
        return NotImplemented
    n, j, v, s = p
    mx = S.key.endswith('max')
    g = s.ctx().simplify(lt(ZERO, n))
    if j is None:
        if not v:
            return s, mkopt(FALSE, None, S.retty)
        if not all(isinstance(x, Poly) for x in v):
            return NotImplemented
        r = v[0]
        for x in v[1:]:
            r = (pmax if mx else pmin)(s.ctx(), r, x)
        return s, mkopt(TRUE, r, S.retty)
    if not isinstance(v, Poly):
        return NotImplemented
    l, h = interval(v)
    return st, mkopt(g, op('itmax' if mx else 'itmin', (SeqV(ArrComp(ArrList(()), ZERO, n, j, v), n),), USIZE, l, h), S.retty)


@nat('array::from_fn')
def array_from_fn(I, st, S, a):
    n = I.ty[S.retty].get('len')
    if n is None or n > 64:
        return NotImplemented
    fo = ('fn', S.ctx)
    st.mem[fo] = a[0]
    out = []
    for i in range(n):
        st, v = I.call_fn(st, Ref(fo), [C(i)], ctxadd(S.ctx, i))
        if st is None:
            return None, None
        out.append(v)
    st.mem.pop(fo, None)
    return st, SeqV(ArrList(out), C(n))


@nat('[T;N]::map', 'array::map')
def array_map(I, st, S, a):
    if not isinstance(a[0], SeqV) or a[0].len.cval() is None or a[0].len.cval() > 64:
        return NotImplemented
    fo = ('fn', S.ctx)
    st.mem[fo] = a[1]
    out = []
    for i in range(int(a[0].len.cval())):
        st, v = I.call_fn(st, Ref(fo), [I.select(a[0].arr, C(i), st.ctx())], ctxadd(S.ctx, i))
        if st is None:
            return None, None
        out.append(v)
    st.mem.pop(fo, None)
    return st, SeqV(ArrList(out), a[0].len)


@nat('[T;N]::as_slice', '[T;N]::as_mut_slice', 'array::as_slice', 'array::as_mut_slice')
def array_as_slice(I, st, S, a):
    r = slice_ref(I, st, a[0])
    return NotImplemented if r is None else (st, r)


# ------------------------------------------------------------------ guarded lists: filtering and flattening adaptors over finite sources
def eager(I, st, itv, ctx):
    """-> (st, [(guard, value)]) of all elements in order, or None when the source is not finite"""
    it = as_iter(I, st, itv)
    if it is None:
        return None
    if it.desc[0] == 'gvec':
        return (st, list(it.desc[1])) if it.pos == ZERO and it.back == ZERO else None
    n = it_remaining(I, st, it)
    n = n.cval() if n is not None else None
    if n is None or n > 4096:
        return None
    out = []
    for i in range(int(n)):
        st, v = elem_at(I, st, it, C(i), ctxadd(ctx, 'g', i))
        if st is None:
            return None, None
        out.append((TRUE, v))
    return st, out


def glist(items):
    items = [(g, v) for g, v in items if g is not FALSE]
    if all(g is TRUE for g, v in items):
        return IterV(('vec', SeqV(ArrList([v for g, v in items]), C(len(items)))))
    return IterV(('gvec', tuple(items)))


def guarded(I, st, g, f, t):
    """run f(state) -> (state, value) only where g holds; -> (state, value seen there)"""
    if g is TRUE:
        return f(st)
    a, b = st.fork(), st
    a.add_pc(g)
    b.add_pc(bnot(g))
    if a.pc is FALSE:
        return b, UNDEF
    a, v = f(a)
    if a is None:
        return b, UNDEF
    if b.pc is FALSE:
        return a, v
    box = []
    a.mem[t] = v
    b.mem[t] = v
    s = IN.merge_states(a, b)
    return s, s.mem.pop(t)


def geager(kind):
    def f(I, st, S, a):
        if not getattr(I, 'eager', False):
            return NotImplemented
        src = as_iter(I, st, a[0])
        if src is None:
            return NotImplemented
        if kind in ('map', 'enumerate', 'chain', 'copied', 'inspect', 'take', 'skip', 'zip', 'rev', 'stepby') and not has_g(src) and not (kind in ('chain', 'zip') and isinstance(a[1], IterV) and has_g(a[1])):
            return PLAIN[kind](I, st, S, a)
        if kind == 'chain' and any(p.desc[0] == 'unknown' for p in flatten(src)):
            return PLAIN[kind](I, st, S, a)
        if src.desc[0] == 'unknown':
            return st, src
        r = eager(I, st, src, ctxadd(S.ctx, 'src'))
        if r is None:
            return (st, IterV(('unknown',))) if I.eager == 'lossy' else NotImplemented
        st, items = r
        if st is None:
            return None, None
        out = []
        fo, so, alive = ('gfn', S.ctx), ('gst', S.ctx), TRUE
        if kind in ('filter', 'filter_map', 'flat_map', 'map', 'inspect', 'take_while', 'skip_while', 'map_while'):
            st.mem[fo] = a[1]
        if kind == 'scan':
            st.mem[so], st.mem[fo] = a[1], a[2]
        n = ZERO
        skipping = TRUE
        if kind == 'chain':
            b = as_intoiter(I, st, a[1])
            r = eager(I, st, b, ctxadd(S.ctx, 'sr2')) if b is not None else None
            if r is None:
                return PLAIN[kind](I, st, S, a) if I.eager == 'lossy' else NotImplemented
            st, more = r
            return (None, None) if st is None else (st, glist(items + more))
        if kind in ('rev',):
            return st, glist(items[::-1])
        if kind in ('take', 'skip', 'zip', 'stepby'):
            return NotImplemented
        for i, (g, v) in enumerate(items):
            c = ctxadd(S.ctx, 'e', i)
            if kind == 'enumerate':
                out.append((g, Agg((n, v))))
                n = n + mkint(g)
                continue
            if kind == 'copied':
                out.append((g, load(I, st, v)))
                continue
            g = st.ctx().simplify(band(g, alive))
            if g is FALSE:
                continue
            if kind == 'flat':
                x = v
            else:
                def run(s, v=v, c=c):
                    if kind in ('filter', 'take_while', 'skip_while', 'inspect'):
                        s.mem[('gel', c)] = v
                        s, x = I.call_fn(s, Ref(fo), [Ref(('gel', c))], ctxadd(c, 'f'))
                        if s is not None:
                            s.mem.pop(('gel', c), None)
                        return s, x
                    if kind == 'scan':
                        return I.call_fn(s, Ref(fo), [Ref(so), v], ctxadd(c, 'f'))
                    return I.call_fn(s, Ref(fo), [v], ctxadd(c, 'f'))
                st, x = guarded(I, st, g, run, ('gx', c))
                if st is None:
                    return None, None
            if kind in ('filter', 'take_while', 'skip_while'):
                h = I.as_bool(x)
                if kind == 'skip_while':
                    skipping = band(skipping, bor(bnot(g), h))
                    out.append((st.ctx().simplify(band(g, bnot(skipping))), v))
                    continue
                out.append((st.ctx().simplify(band(g, h)), v))
                if kind == 'take_while':
                    alive = band(alive, bor(bnot(g), h))
            elif kind in ('filter_map', 'scan', 'map_while'):
                if not isinstance(x, Enum):
                    return NotImplemented
                h = x.guard(1)
                if h is not FALSE:
                    out.append((st.ctx().simplify(band(g, h)), x.fields(1)[0]))
                if kind != 'filter_map':
                    alive = band(alive, bor(bnot(g), h))
            elif kind in ('flat_map', 'flat'):
                if isinstance(x, Enum):
                    h = x.guard(1)
                    if h is not FALSE:
                        out.append((st.ctx().simplify(band(g, h)), x.fields(1)[0]))
                    continue
                b = as_intoiter(I, st, x)
                r = eager(I, st, b, ctxadd(c, 'in')) if b is not None else None
                if r is None:
                    return NotImplemented
                st, more = r
                if st is None:
                    return None, None
                out += [(st.ctx().simplify(band(g, h)), y) for h, y in more]
            elif kind == 'inspect':
                out.append((g, v))
            else:
                out.append((g, x))
        st.mem.pop(fo, None)
        st.mem.pop(so, None)
        return st, glist(out)
    return f


def mkint(g):
    return ONE if g is TRUE else ite(g, ONE, ZERO)


def arbitrary(I, ty, name):
    """an arbitrary value of a type, or None"""
    t = I.ty[ty]
    if I.numty(ty):
        return fresh(name, I.numty(ty))
    if t['k'] == 'bool':
        return bsym(name + str(len(I.objty)))
    if t['k'] == 'tuple':
        f = [arbitrary(I, e, name) for e in t['elems']]
        return None if any(x is None for x in f) else Agg(f, ty)
    if (I.adt_path(ty) or '').split('::')[-1] == 'Vec':
        for e, x in enumerate(I.ty):
            if x['name'] and t['name'].endswith('Vec<%s>' % x['name']) and I.numty(e):
                return SeqV(ArrSym(name + str(fresh(name, USIZE).as_atom().id), I.numty(e)), fresh(name + '.len', USIZE, 0, 1 << 40))
    return None


def lossy(key, f):
    """consumers of an iterator whose elements are not known"""
    def g(I, st, S, a):
        if getattr(I, 'eager', False) == 'lossy':
            it = as_iter(I, st, a[0])
            parts = flatten(it) if it is not None else []
            if any(p.desc[0] == 'unknown' for p in parts):
                v = arbitrary(I, S.retty, 'lost')
                if v is None:
                    return NotImplemented
                pre = []
                for p in parts:
                    n = it_remaining(I, st, p) if p.desc[0] != 'unknown' else None
                    n = n.cval() if n is not None else None
                    r = eager(I, st, p, ctxadd(S.ctx, 'pre')) if n is not None and n < 64 else None
                    if r is None or r[0] is None:
                        break
                    st = r[0]
                    pre += [x for _, x in r[1]]
                if key == 'collect' and isinstance(v, SeqV):
                    for i, x in enumerate(pre):
                        v = SeqV(I.store(v.arr, C(i), x, st.ctx()), v.len)
                    return st, SeqV(v.arr, v.len + len(pre))
                return st, v
        return f(I, st, S, a)
    return g


def flatten(it):
    if it.desc[0] == 'chain' and it.pos == ZERO and it.back == ZERO:
        return flatten(it.desc[1]) + flatten(it.desc[2])
    return [it]


TABLE['Iterator::collect'] = lossy('collect', TABLE['Iterator::collect'])
for _k in ('fold', 'sum', 'count'):
    TABLE['Iterator::' + _k] = lossy(_k, TABLE['Iterator::' + _k])


def has_g(it):
    return isinstance(it, IterV) and any(x in ('gvec', 'unknown') or has_g(x) for x in it.desc[:3] if isinstance(x, (str, IterV)))


PLAIN = {}
for _m, _k in (('map', 'map'), ('enumerate', 'enumerate'), ('chain', 'chain'), ('copied', 'copied'), ('cloned', 'copied'), ('inspect', 'inspect'), ('take', 'take'), ('skip', 'skip'), ('zip', 'zip'),
               ('rev', 'rev'), ('step_by', 'stepby')):
    PLAIN[_k] = adaptor(_k)
    TABLE['Iterator::' + _m] = (lambda e, pl: lambda I, st, S, a: e(I, st, S, a) if getattr(I, 'eager', False) else pl(I, st, S, a))(geager(_k), adaptor(_k))
for _m, _k in (('filter', 'filter'), ('filter_map', 'filter_map'), ('flat_map', 'flat_map'), ('flatten', 'flat'), ('scan', 'scan'), ('take_while', 'take_while'), ('skip_while', 'skip_while'),
               ('map_while', 'map_while')):
    TABLE.setdefault('Iterator::' + _m, geager(_k))
