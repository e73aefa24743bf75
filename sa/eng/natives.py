"""Transfer functions of the standard library operations the analysed crates use."""
import math
import re
from .terms import *
from . import terms as T
from .values import *
from . import interp as IN

STD = ('core', 'alloc', 'std')
UNIT = Agg(())

_gen = re.compile(r'<[^<>]*>')


def strip(s):
    s = s.strip()
    while True:
        n = _gen.sub('', s)
        if n == s:
            break
        s = n
    return s.replace('::::', '::').strip()


def base(s):
    """last component of a type / trait name without generics"""
    s = s.strip()
    s = re.sub(r"^&('\w+ )?(mut )?", lambda m: '&mut ' if m.group(2) else '&', s)
    if s.startswith('&'):
        return s
    if s.startswith('['):
        return '[T;N]' if ';' in s else '[T]'
    return strip(s).split('::')[-1]


def split_as(s):
    d = 0
    for i in range(len(s)):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return s[:i], s[i + 4:]
        elif d == 0 and s.startswith(' for ', i):
            return s[i + 5:], s[:i]
    return s, None


_pcache = {}


def parse(path):
    r = _pcache.get(path)
    if r is not None:
        return r
    r = _parse(path)
    _pcache[path] = r
    return r


def _parse(path):
    """-> (key, selftype or None)"""
    if path.startswith('<'):
        d = 0
        for i, c in enumerate(path):
            if c == '<':
                d += 1
            elif c == '>' and path[i - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner, rest = path[1:i], path[i + 3:]
        x, tr = split_as(inner)
        return (base(tr) if tr else '?') + '::' + strip(rest), base(x)
    m = re.search(r'<impl ', path)
    if m:
        s = m.start()
        d = 0
        for i in range(s, len(path)):
            c = path[i]
            if c == '<':
                d += 1
            elif c == '>' and path[i - 1] != '-':
                d -= 1
                if d == 0:
                    break
        inner, rest = path[s + 6:i], path[i + 3:]
        x, tr = split_as(inner)
        if tr:
            return base(tr) + '::' + strip(rest), base(x)
        b = base(x)
        if inner.startswith('*'):
            b = 'ptr'
        elif b == '[T]':
            b = 'slice'
        elif re.match(r'^[iu](8|16|32|64|128|size)$', b):
            b = 'int'
        elif b in ('f64', 'f32'):
            b = 'float'
        return b + '::' + strip(rest), base(x)
    s = strip(path)
    parts = s.split('::')
    return '::'.join(parts[-2:]), None


TABLE = {}


def nat(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


NEVER_OK = ()


def dispatch(I, st, inst, args, call):
    crate = inst['crate']
    if crate not in STD:
        if crate in ('num_complex', 'rustfft', 'num_traits'):
            return complex_ops(I, st, inst, args, call)
        return NotImplemented
    path = inst['path']
    if path.endswith('precondition_check') or path.endswith('drop_glue') or inst.get('kind') == 'shim' and 'drop' in path:
        return st, UNIT
    key, x = parse(path)
    if call.retty is not None and I.kind(call.retty) == 'never':
        I.event('panic', st, cond=TRUE, what='call:' + key, span=call.span, fn=call.caller.inst['path'] if call.caller else '?', args=tuple(args))
        return None, None
    f = TABLE.get(key)
    if f is None:
        if key.startswith('intrinsics::'):
            return intrinsic(I, st, key[12:], args, call)
        if x in FLOATS and key.startswith('float::'):
            return floatfn(I, st, key[7:], args, call)
        return NotImplemented
    if args and isinstance(args[0], Gated) and f not in RAWG:
        return split_gated(I, st, args, lambda s, a, c: f(I, s, Site(inst, key, x, c), a), call)
    return f(I, st, Site(inst, key, x, call), args)


FLOATS = ('f64', 'f32')
RAWG = set()


class Site:
    __slots__ = ('inst', 'key', 'x', 'call', 'ctx', 'span', 'retty')
    def __init__(self, inst, key, x, call):
        self.inst = inst
        self.key = key
        self.x = x
        self.call = call
        self.ctx = call.ctx
        self.span = call.span
        self.retty = call.retty


def split_gated(I, st, args, f, call):
    out = None
    tmp = ('rv', call.ctx, 'g')
    for n, (g, v) in enumerate(args[0].alts):
        g2 = st.ctx().simplify(g)
        if g2 is FALSE:
            continue
        s = st.fork()
        s.add_pc(g2)
        c = IN.Call(call.inst, IN.ctx_intern((call.ctx, 'ga', n)), call.span, call.retty, call.idx, call.caller)
        if hasattr(call, 'argtys'):
            c.argtys = call.argtys
        r = f(s, [v] + list(args[1:]), c)
        if r is NotImplemented:
            return NotImplemented
        s2, v2 = r
        if s2 is None:
            continue
        s2.mem[tmp] = v2
        out = IN.merge_states(out, s2)
    if out is None:
        return None, None
    return out, out.mem.pop(tmp)


def panic_if(I, st, cond, what, S, **kw):
    """record a possible panic; False when execution cannot continue"""
    c = st.ctx().simplify(cond)
    if c is FALSE:
        return True
    I.event('panic', st, cond=c, what=what, span=S.span, fn=S.call.caller.inst['path'] if S.call.caller else '?', **kw)
    if c is TRUE:
        return False
    st.add_assume(bnot(c))
    return True


# ------------------------------------------------------------------ helpers
def seq_of(I, st, r):
    """SeqV designated by a reference (whole container) or None"""
    if isinstance(r, SeqV):
        return r
    if isinstance(r, BoxV):
        return seq_of(I, st, r.inner)
    if isinstance(r, Ref):
        v = I.deref_val(st, r)
        if isinstance(v, BoxV):
            v = v.inner
        if isinstance(v, Ref):
            return seq_of(I, st, v)
        if isinstance(v, SeqV):
            return v
    return None


def cont_of(I, st, r):
    """(container SeqV, setter, view start, view len)"""
    v = I.walk(st, st.mem.get(r.obj, UNDEF), r.path)
    bx = None
    while isinstance(v, Ref):
        r = v if r.view is None else Ref(v.obj, v.path, r.view)
        v = I.walk(st, st.mem.get(r.obj, UNDEF), r.path)
    if isinstance(v, BoxV):
        bx = v
        v = v.inner
    if not isinstance(v, SeqV):
        return None

    def setter(nv, r=r, bx=bx):
        I.write_to(st, [(TRUE, r.obj, r.path, None, None)], nv if bx is None else BoxV(nv, bx.dyn))
    if r.view is None:
        return v, setter, ZERO, v.len, r
    return v, setter, r.view[0], r.view[1], r


def slice_ref(I, st, r):
    """reference with an explicit view"""
    if isinstance(r, Ref):
        if r.view is not None:
            return r
        c = cont_of(I, st, r)
        if c is None:
            return None
        v, _, s, n, rr = c
        return Ref(rr.obj, rr.path, (s, n))
    return None


def elem_ref(I, r, idx):
    return Ref(r.obj, r.path + (('x', r.view[0] + idx),))


def mkopt(g, v, ty):
    alts = []
    if g is not TRUE:
        alts.append((0, 0, bnot(g), ()))
    if g is not FALSE:
        alts.append((1, 1, g, (v,)))
    return Enum(alts, ty)


def unit(st):
    return st, UNIT


def ctxadd(ctx, *k):
    return IN.ctx_intern((ctx,) + k)


def pmin(ctx, a, b):
    if a == b:
        return a
    if ctx.holds(le(a, b)):
        return a
    if ctx.holds(le(b, a)):
        return b
    return ite(le(a, b), a, b)


def pmax(ctx, a, b):
    if a == b:
        return a
    if ctx.holds(le(a, b)):
        return b
    if ctx.holds(le(b, a)):
        return a
    return ite(le(a, b), b, a)


# ------------------------------------------------------------------ Vec / VecDeque / slices
@nat('Vec::new', 'VecDeque::new', 'Vec::with_capacity', 'VecDeque::with_capacity')
def vec_new(I, st, S, a):
    return st, SeqV(ArrList(()), ZERO)


@nat('vec::from_elem')
def from_elem(I, st, S, a):
    return st, SeqV(ArrFill(a[0]), I.as_int(a[1]))


@nat('Vec::len', 'VecDeque::len', 'slice::len', 'ExactSizeIterator::len')
def seq_len(I, st, S, a):
    if S.key.startswith('ExactSize'):
        it = I.deref_val(st, a[0]) if isinstance(a[0], Ref) else None
        it = as_iter(I, st, it)
        if it is None:
            return NotImplemented
        n = it_remaining(I, st, it)
        return NotImplemented if n is None else (st, n)
    s = seq_of(I, st, a[0])
    if s is None:
        return NotImplemented
    return st, s.len


@nat('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty')
def seq_is_empty(I, st, S, a):
    s = seq_of(I, st, a[0])
    if s is None:
        return NotImplemented
    return st, eq0(s.len)


@nat('Vec::capacity', 'VecDeque::capacity')
def seq_cap(I, st, S, a):
    s = seq_of(I, st, a[0])
    if s is None:
        return NotImplemented
    return st, op('uf', ('capacity', (), (s.len,)), USIZE, 0, 1 << 48)


@nat('Vec::reserve', 'VecDeque::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'Vec::shrink_to', 'VecDeque::shrink_to_fit', 'VecDeque::reserve_exact')
def seq_noop(I, st, S, a):
    return unit(st)


@nat('Vec::push', 'VecDeque::push_back', 'Vec::push_mut')
def vec_push(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, _, _, rr = c
    I.event('push', st, seq=v, val=a[1], ref=rr, span=S.span, fn=S.call.caller.inst['path'] if S.call.caller else '?')
    setter(SeqV(I.store(v.arr, v.len, a[1], st.ctx()), v.len + 1))
    if S.key == 'Vec::push_mut':
        return st, Ref(rr.obj, rr.path + (('x', v.len),))
    return unit(st)


@nat('VecDeque::push_front')
def vec_push_front(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter = c[0], c[1]
    setter(SeqV(mkcopy(ArrFill(a[1]), ONE, v.len, v.arr, ZERO), v.len + 1))
    return unit(st)


def pop_common(I, st, S, a, front):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter = c[0], c[1]
    g = st.ctx().simplify(lt(ZERO, v.len))
    if g is FALSE:
        return st, mkopt(FALSE, None, S.retty)
    cx = st.ctx() if g is TRUE else st.ctx().cond(g)
    if front:
        e = I.select(v.arr, ZERO, cx)
        n = SeqV(mkshift(v.arr, ONE), v.len - 1)
    else:
        e = I.select(v.arr, v.len - 1, cx)
        n = SeqV(v.arr, v.len - 1)
    setter(merge(g, n, v))
    return st, mkopt(g, e, S.retty)


@nat('Vec::pop', 'VecDeque::pop_back')
def vec_pop(I, st, S, a):
    return pop_common(I, st, S, a, False)


@nat('VecDeque::pop_front')
def vec_pop_front(I, st, S, a):
    return pop_common(I, st, S, a, True)


@nat('Vec::clear', 'VecDeque::clear')
def vec_clear(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    c[1](SeqV(ArrList(()), ZERO))
    return unit(st)


@nat('Vec::truncate', 'VecDeque::truncate')
def vec_truncate(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v = c[0]
    n = pmin(st.ctx(), v.len, I.as_int(a[1]))
    if n == ZERO:
        c[1](SeqV(ArrList(()), ZERO))
    else:
        arr = v.arr
        if isinstance(arr, ArrList) and n.cval() is not None:
            arr = ArrList(arr.vals[:int(n.cval())])
        c[1](SeqV(arr, n))
    return unit(st)


def seq_append(I, st, v, src, n):
    """v followed by n elements of array src"""
    if st.ctx().holds(eq0(v.len)):
        return SeqV(src, n)
    if n == ZERO:
        return v
    if isinstance(v.arr, ArrFill) and isinstance(src, ArrFill) and v.arr.v == src.v:
        return SeqV(v.arr, v.len + n)
    if isinstance(v.arr, ArrShift) and isinstance(src, ArrShift) and v.arr.base == src.base and st.ctx().equal(v.arr.off + v.len, src.off):
        return SeqV(v.arr, v.len + n)
    if v.arr == src if not isinstance(src, ArrShift) else (v.arr == src.base and st.ctx().equal(v.len, src.off)):
        if isinstance(src, ArrShift):
            return SeqV(v.arr, v.len + n)
    if isinstance(v.arr, ArrCopy) and isinstance(src, ArrShift) and v.arr.src == src.base \
            and st.ctx().equal(v.arr.dlo + v.arr.n, v.len) and st.ctx().equal(v.arr.slo + v.arr.n, src.off):
        return SeqV(mkcopy(v.arr.base, v.arr.dlo, v.arr.n + n, v.arr.src, v.arr.slo), v.len + n)
    return SeqV(mkcopy(v.arr, v.len, n, src, ZERO), v.len + n)


@nat('Vec::resize', 'VecDeque::resize')
def vec_resize(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, n = c[0], I.as_int(a[1])
    ctx = st.ctx()
    if ctx.holds(eq0(v.len)):
        c[1](SeqV(ArrFill(a[2]), n))
    elif ctx.holds(le(n, v.len)):
        c[1](SeqV(v.arr, n))
    elif isinstance(v.arr, ArrFill) and v.arr.v == a[2]:
        c[1](SeqV(v.arr, n))
    else:
        c[1](SeqV(mkcopy(v.arr, v.len, n - v.len, ArrFill(a[2]), ZERO), n))
    return unit(st)


@nat('Vec::extend_from_slice')
def vec_extend_slice(I, st, S, a):
    c = cont_of(I, st, a[0])
    s = seq_of(I, st, a[1])
    if c is None or s is None:
        return NotImplemented
    I.event('bulk', st, how='extend', dst=c[4], src=s, span=S.span)
    c[1](seq_append(I, st, c[0], s.arr, s.len))
    return unit(st)


@nat('Vec::append', 'VecDeque::append')
def vec_append(I, st, S, a):
    c = cont_of(I, st, a[0])
    d = cont_of(I, st, a[1])
    if c is None or d is None:
        return NotImplemented
    c[1](seq_append(I, st, c[0], d[0].arr, d[0].len))
    d[1](SeqV(ArrList(()), ZERO))
    return unit(st)


def range_of(I, st, r, n):
    """(start, end) of a range value indexing something of length n"""
    if isinstance(r, Ref):
        r = I.deref_val(st, r)
    if not isinstance(r, Agg) or r.ty is None:
        return None
    p = I.adt_path(r.ty) or ''
    b = p.split('::')[-1]
    f = [I.as_int(x) if isinstance(x, Poly) else x for x in r.f]
    if b == 'Range':
        return f[0], f[1]
    if b == 'RangeTo':
        return ZERO, f[0]
    if b == 'RangeFrom':
        return f[0], n
    if b == 'RangeFull':
        return ZERO, n
    if b == 'RangeInclusive':
        return f[0], f[1] + 1
    if b == 'RangeToInclusive':
        return ZERO, f[0] + 1
    return None


@nat('Vec::drain', 'VecDeque::drain')
def vec_drain(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v = c[0]
    r = range_of(I, st, a[1], v.len)
    if r is None:
        return NotImplemented
    s, e = r
    if not panic_if(I, st, bor(lt(e, s), lt(v.len, e)), 'slice_range', S):
        return None, None
    ctx = st.ctx()
    out = SeqV(mkshift(v.arr, s), e - s)
    if ctx.equal(s, ZERO):
        if ctx.equal(e, v.len):
            n = SeqV(ArrList(()), ZERO)
        else:
            n = SeqV(mkshift(v.arr, e), v.len - e)
    elif ctx.equal(e, v.len):
        n = SeqV(v.arr, s)
    else:
        n = SeqV(mkcopy(v.arr, s, v.len - e, v.arr, e), v.len - (e - s))
    c[1](n)
    return st, IterV(('vec', out))


@nat('VecDeque::as_slices', 'VecDeque::as_mut_slices')
def deque_slices(I, st, S, a):
    """the wrap point of a ring buffer is arbitrary, except that the first slice is empty only when the queue is"""
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, _, s, n, r = c
    hi = int(n.cval()) if n.is_const() else (1 << 62)
    if hi == 0:
        k = ZERO
    else:
        w = I.__dict__.setdefault('wraps', {})
        key = (v.arr, s, n)
        if key not in w:
            w[key] = 'wrap%d' % len(w)
        k = T.sym(w[key], T.USIZE, 1 if n.is_const() else 0, hi)
        if not n.is_const():
            st.add_assume(le(k, n))
    return st, Agg([Ref(r.obj, r.path, (s, k)), Ref(r.obj, r.path, (s + k, n - k))], S.retty)


@nat('Vec::split_off')
def vec_split_off(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, at = c[0], I.as_int(a[1])
    if not panic_if(I, st, lt(v.len, at), 'split_off', S):
        return None, None
    c[1](SeqV(v.arr, at))
    return st, SeqV(mkshift(v.arr, at), v.len - at)


@nat('Vec::insert')
def vec_insert(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, at = c[0], I.as_int(a[1])
    if not panic_if(I, st, lt(v.len, at), 'insert', S):
        return None, None
    arr = mkcopy(v.arr, at + 1, v.len - at, v.arr, at)
    c[1](SeqV(I.store(arr, at, a[2], st.ctx()), v.len + 1))
    return unit(st)


@nat('Vec::remove')
def vec_remove(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, at = c[0], I.as_int(a[1])
    if not panic_if(I, st, le(v.len, at), 'remove', S):
        return None, None
    e = I.select(v.arr, at, st.ctx())
    if at == ZERO:
        n = mkshift(v.arr, ONE)
    elif isinstance(v.arr, ArrList) and at.cval() is not None:
        l = list(v.arr.vals)
        del l[int(at.cval())]
        n = ArrList(l)
    else:
        n = mkcopy(v.arr, at, v.len - at - 1, v.arr, at + 1)
    c[1](SeqV(n, v.len - 1))
    return st, e


@nat('Vec::swap_remove')
def vec_swap_remove(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, at = c[0], I.as_int(a[1])
    if not panic_if(I, st, le(v.len, at), 'remove', S):
        return None, None
    e = I.select(v.arr, at, st.ctx())
    last = I.select(v.arr, v.len - 1, st.ctx())
    c[1](SeqV(I.store(v.arr, at, last, st.ctx()), v.len - 1))
    return st, e


@nat('Deref::deref', 'DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut', 'slice::as_ref', 'VecDeque::make_contiguous', 'Vec::as_ptr', 'Vec::as_mut_ptr', 'slice::as_ptr', 'slice::as_mut_ptr')
def deref(I, st, S, a):
    if S.x in ('String', 'Arc', 'Rc', 'str'):
        if S.x in ('Arc', 'Rc') and isinstance(a[0], Ref):
            v = I.deref_val(st, a[0])
            o = ('opq', v)
            if o not in st.mem:
                to = I.ty[S.retty].get('to') if S.retty is not None else None
                st.mem[o] = Opq('pointee', (v,))
            return st, Ref(o)
        return NotImplemented
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    return st, r


@nat('Index::index', 'IndexMut::index_mut', 'SliceIndex::index', 'SliceIndex::index_mut')
def index(I, st, S, a):
    r, ix = a[0], a[1]
    if S.key.startswith('SliceIndex'):
        r, ix = a[1], a[0]
    if isinstance(r, Gated):
        return split_gated(I, st, [r, ix], lambda s, b, c: index(I, s, Site(S.inst, 'Index::index', S.x, c), b), S.call)
    r = slice_ref(I, st, r)
    if r is None:
        return NotImplemented
    n = r.view[1]
    if isinstance(ix, Poly):
        if not panic_if(I, st, bor(lt(ix, ZERO), le(n, ix)), 'index', S, idx=ix, len=n):
            return None, None
        return st, elem_ref(I, r, ix)
    rg = range_of(I, st, ix, n)
    if rg is None:
        return NotImplemented
    s, e = rg
    if not panic_if(I, st, bor(lt(e, s), lt(n, e)), 'slice_range', S, range=(s, e), len=n):
        return None, None
    return st, Ref(r.obj, r.path, (r.view[0] + s, e - s))


@nat('slice::get', 'slice::get_mut', 'VecDeque::get', 'VecDeque::get_mut')
def seq_get(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    n = r.view[1]
    if isinstance(a[1], Poly):
        g = st.ctx().simplify(lt(a[1], n))
        return st, mkopt(g, elem_ref(I, r, a[1]), S.retty)
    rg = range_of(I, st, a[1], n)
    if rg is None:
        return NotImplemented
    s, e = rg
    g = st.ctx().simplify(band(le(s, e), le(e, n)))
    return st, mkopt(g, Ref(r.obj, r.path, (r.view[0] + s, e - s)), S.retty)


@nat('slice::get_unchecked', 'slice::get_unchecked_mut')
def seq_get_unchecked(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None or not isinstance(a[1], Poly):
        return NotImplemented
    return st, elem_ref(I, r, a[1])


@nat('slice::first', 'slice::first_mut', 'VecDeque::front', 'VecDeque::front_mut')
def seq_first(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    g = st.ctx().simplify(lt(ZERO, r.view[1]))
    return st, mkopt(g, elem_ref(I, r, ZERO), S.retty)


@nat('slice::last', 'slice::last_mut', 'VecDeque::back', 'VecDeque::back_mut')
def seq_last(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    g = st.ctx().simplify(lt(ZERO, r.view[1]))
    return st, mkopt(g, elem_ref(I, r, r.view[1] - 1), S.retty)


@nat('slice::split_at', 'slice::split_at_mut')
def seq_split_at(I, st, S, a):
    r = slice_ref(I, st, a[0])
    if r is None:
        return NotImplemented
    m = I.as_int(a[1])
    if not panic_if(I, st, lt(r.view[1], m), 'split_at', S, range=(m,), len=r.view[1]):
        return None, None
    return st, Agg((Ref(r.obj, r.path, (r.view[0], m)), Ref(r.obj, r.path, (r.view[0] + m, r.view[1] - m))), S.retty)


@nat('slice::swap')
def seq_swap(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    i, j = I.as_int(a[1]), I.as_int(a[2])
    if not panic_if(I, st, bor(le(n, i), le(n, j)), 'index', S):
        return None, None
    x, y = I.select(v.arr, s + i, st.ctx()), I.select(v.arr, s + j, st.ctx())
    arr = I.store(v.arr, s + i, y, st.ctx())
    arr = I.store(arr, s + j, x, st.ctx())
    setter(SeqV(arr, v.len))
    return unit(st)


@nat('slice::fill')
def seq_fill(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    if st.ctx().equal(s, ZERO) and st.ctx().equal(n, v.len):
        setter(SeqV(ArrFill(a[1]), v.len))
    else:
        setter(SeqV(mkcopy(v.arr, s, n, ArrFill(a[1]), ZERO), v.len))
    return unit(st)


def copy_into(I, st, dst, src_arr, n):
    v, setter, s, _, rr = dst
    if st.ctx().equal(s, ZERO) and st.ctx().equal(n, v.len):
        setter(SeqV(src_arr, v.len))
    else:
        setter(SeqV(mkcopy(v.arr, s, n, src_arr, ZERO), v.len))


@nat('slice::copy_from_slice', 'slice::clone_from_slice')
def seq_copy_from(I, st, S, a):
    c = cont_of(I, st, a[0])
    s = seq_of(I, st, a[1])
    if c is None or s is None:
        return NotImplemented
    if not panic_if(I, st, bnot(eq(c[3], s.len)), 'copy_len', S, len=c[3], srclen=s.len):
        return None, None
    I.event('bulk', st, how='copy', dst=c[4], src=s, span=S.span)
    copy_into(I, st, c, s.arr, s.len)
    return unit(st)


@nat('slice::copy_within')
def seq_copy_within(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    rg = range_of(I, st, a[1], n)
    if rg is None:
        return NotImplemented
    x, e = rg
    d = I.as_int(a[2])
    if not panic_if(I, st, bor(lt(e, x), bor(lt(n, e), lt(n, d + e - x))), 'copy_within', S):
        return None, None
    setter(SeqV(mkcopy(v.arr, s + d, e - x, v.arr, s + x), v.len))
    return unit(st)


@nat('slice::reverse')
def seq_reverse(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    j = fresh('r', USIZE)
    setter(SeqV(mkcomp(v.arr, s, n, j, I.select(v.arr, s + n - 1 - j, st.ctx())), v.len))
    return unit(st)


@nat('slice::rotate_left', 'slice::rotate_right', 'VecDeque::rotate_left')
def seq_rotate(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    m = I.as_int(a[1])
    if not panic_if(I, st, lt(n, m), 'rotate', S):
        return None, None
    if S.key.endswith('right'):
        m = n - m
    arr = mkcopy(v.arr, s, n - m, v.arr, s + m)
    arr = mkcopy(arr, s + n - m, m, v.arr, s)
    setter(SeqV(arr, v.len))
    return unit(st)


def once_key(r):
    while r is not None and not isinstance(r, Ref):
        r = None
    return ('once', r.obj, r.path) if r is not None else None


@nat('OnceLock::get_or_init', 'OnceCell::get_or_init', 'OnceLock::get_mut_or_init')
def once_get_or_init(I, st, S, args):
    """a cell of a static or a local that starts empty: the first initialisation is kept"""
    o = once_key(args[0])
    if o is None:
        return NotImplemented
    if o in st.mem:
        return st, Ref(o, ())
    if I.quiet or st.ctx().simplify(st.pc) is not TRUE:
        return NotImplemented
    s, v = I.call_fn(st, args[1], [], ctxadd(S.ctx, 'once'), S.span)
    if s is None:
        return None, None
    s.mem[o] = v
    I.objty[o] = I.p.ty[S.retty].get('to')
    return s, Ref(o, ())


@nat('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key')
def seq_sort(I, st, S, a):
    c = cont_of(I, st, a[0])
    if c is None:
        return NotImplemented
    v, setter, s, n, rr = c
    src = SeqV(mkshift(v.arr, s), n)
    I.event('sort', st, seq=src, how=S.key, fnarg=a[1] if len(a) > 1 else None, span=S.span)
    if n.cval() is not None and n.cval() <= 1:
        return unit(st)
    if I.small_sorts and n.cval() is not None and S.key.split('_')[-1] != 'by':
        r = sort_constants(I, st, S, c, int(n.cval()), s, a[1] if len(a) > 1 else None)
        if r is not NotImplemented:
            return r
    if I.small_sorts and S.key.split('_')[-1] == 'by' and n.cval() is not None and n.cval() <= 12:
        r = sort_network(I, st, S, c, int(n.cval()), s, a[1])
        if r is not NotImplemented:
            return r
    from .loops import arr_elty
    out = ArrOp(S.key, (src,) + tuple(I.snapshot(st, x) for x in a[1:]), arr_elty(v.arr))
    copy_into(I, st, c, out, n)
    return unit(st)


class Descending:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __eq__(self, o):
        return o.x == self.x


def sort_key(I, v):
    if isinstance(v, Poly):
        return v.cval()
    if isinstance(v, Agg):
        k = [sort_key(I, x) for x in v.f]
        if any(x is None for x in k):
            return None
        name = (I.p.ty[v.ty]['name'] or '') if isinstance(v.ty, int) else ''
        if 'cmp::Reverse' in name.split('<')[0]:
            return Descending(k[0])
        return tuple(k)
    return None


def sort_constants(I, st, S, c, n, s, f):
    """sort of elements, or by keys, that are constants"""
    v, setter, _, _, rr = c
    x = [I.select(v.arr, s + i, st.ctx()) for i in range(n)]
    keys = x
    if f is not None:
        fo = ('sortf', S.ctx)
        st.mem[fo] = f
        keys = []
        for i, e in enumerate(x):
            st.mem[('sortk', S.ctx, i)] = e
            st, k = I.call_fn(st, Ref(fo), [Ref(('sortk', S.ctx, i))], ctxadd(S.ctx, 'key%d' % i), S.span)
            if st is None:
                return None, None
            keys.append(k)
    keys = [sort_key(I, k) for k in keys]
    if any(k is None for k in keys):
        return NotImplemented
    try:
        order = sorted(range(n), key=lambda i: keys[i])
    except TypeError:
        return NotImplemented
    out = ArrList([x[i] for i in order])
    setter(SeqV(out, v.len) if s == ZERO and v.len.cval() == n else SeqV(mkcopy(v.arr, s, C(n), out, ZERO), v.len))
    return unit(st)


def sort_network(I, st, S, c, n, s, f):
    """stable sort of a few elements by compare and exchange of neighbours"""
    v, setter, _, _, rr = c
    x = [I.select(v.arr, s + i, st.ctx()) for i in range(n)]
    fo = ('sortf', S.ctx)
    st.mem[fo] = f
    k = 0
    for last in range(n - 1, 0, -1):
        for j in range(last):
            k += 1
            p, q = ('sorta', S.ctx, k), ('sortb', S.ctx, k)
            st.mem[p], st.mem[q] = x[j + 1], x[j]
            st, o = I.call_fn(st, Ref(fo), [Ref(p), Ref(q)], ctxadd(S.ctx, 'sort%d' % k), S.span)
            if st is None:
                return None, None
            if not isinstance(o, Enum):
                return NotImplemented
            g = FALSE
            for _, d, gg, _ in o.alts:
                if d == -1:
                    g = bor(g, gg)
            g = st.ctx().simplify(g)
            x[j], x[j + 1] = merge(g, x[j + 1], x[j]), merge(g, x[j], x[j + 1])
    setter(SeqV(ArrList(x), v.len) if s == ZERO and v.len.cval() == n else SeqV(mkcopy(v.arr, s, C(n), ArrList(x), ZERO), v.len))
    return unit(st)


@nat('slice::to_vec', 'slice::to_owned', 'ToOwned::to_owned', 'slice::into_vec', 'Vec::into_boxed_slice', 'slice::into_boxed_slice')
def to_vec(I, st, S, a):
    if S.x in ('str', 'String'):
        return NotImplemented
    s = seq_of(I, st, a[0])
    if s is None:
        return NotImplemented
    if S.key.endswith('into_boxed_slice'):
        return st, BoxV(s)
    return st, s


@nat('Clone::clone')
def clone(I, st, S, a):
    if isinstance(a[0], Ref):
        v = I.deref_val(st, a[0])
        if isinstance(v, (Poly, Bdd)):
            return st, v
        if isinstance(v, SeqV) and S.x in ('Vec', 'VecDeque', 'T', '[T;N]'):
            return st, v
        if isinstance(v, BoxV) and isinstance(v.inner, SeqV):
            return st, v
        if isinstance(v, (IterV, FnVal)):
            return st, v
        if S.x in ('Arc', 'Rc'):
            return st, v
    return NotImplemented


@nat('From::from', 'Into::into')
def conv(I, st, S, a):
    if isinstance(a[0], SeqV) and S.x in ('Vec', 'VecDeque'):
        return st, a[0]
    if isinstance(a[0], BoxV) and isinstance(a[0].inner, SeqV) and S.x == 'Vec':
        return st, a[0].inner
    if S.x in ('Vec', 'Box') and isinstance(a[0], Ref):
        s = seq_of(I, st, a[0])
        if s is not None:
            return st, s if S.x == 'Vec' else BoxV(s)
    return NotImplemented


@nat('slice::contains')
def seq_contains(I, st, S, a):
    s = seq_of(I, st, a[0])
    if s is None or not isinstance(a[1], Ref):
        return NotImplemented
    x = I.deref_val(st, a[1])
    n = s.len.cval()
    if n is None or n > 64:
        return st, bop('contains', (s, x))
    r = FALSE
    for i in range(int(n)):
        e = I.select(s.arr, C(i), st.ctx())
        r = bor(r, I.compare(st, 'Eq', e, x, None))
    return st, r


# ------------------------------------------------------------------ Box / mem / ptr
@nat('Box::new')
def box_new(I, st, S, a):
    return st, BoxV(a[0])


@nat('mem::swap')
def mem_swap(I, st, S, a):
    if not all(isinstance(x, Ref) for x in a):
        return NotImplemented
    x, y = I.deref_val(st, a[0]), I.deref_val(st, a[1])
    I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], y)
    I.write_to(st, [(TRUE, a[1].obj, a[1].path, None, None)], x)
    return unit(st)


@nat('mem::replace', 'ptr::replace')
def mem_replace(I, st, S, a):
    if not isinstance(a[0], Ref):
        return NotImplemented
    x = I.deref_val(st, a[0])
    I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], a[1])
    return st, x


@nat('mem::take')
def mem_take(I, st, S, a):
    if not isinstance(a[0], Ref):
        return NotImplemented
    x = I.deref_val(st, a[0])
    t = S.retty
    p = I.adt_path(t)
    if isinstance(x, SeqV) and p and p.split('::')[-1] in ('Vec', 'VecDeque'):
        d = SeqV(ArrList(()), ZERO)
    elif p and p.endswith('Option'):
        d = Enum([(0, 0, TRUE, ())], t)
    elif I.kind(t) in ('int', 'float'):
        d = ZERO
    elif I.kind(t) == 'bool':
        d = FALSE
    else:
        return NotImplemented
    I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], d)
    return st, x


@nat('ptr::read', 'mut_ptr::read', 'const_ptr::read')
def ptr_read(I, st, S, a):
    if isinstance(a[0], Ref):
        return st, I.deref_val(st, a[0])
    return NotImplemented


@nat('ptr::write')
def ptr_write(I, st, S, a):
    if isinstance(a[0], Ref):
        I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], a[1])
        return unit(st)
    return NotImplemented


@nat('mem::drop', 'mem::forget', 'hint::black_box')
def mem_drop(I, st, S, a):
    if 'black_box' in S.key:
        return st, a[0]
    return unit(st)


def copy_nonoverlapping(I, st, src, dst, n):
    n = I.as_int(n)
    if isinstance(src, Ref) and isinstance(dst, Ref):
        s, so = ptr_base(I, st, src)
        d, do = ptr_base(I, st, dst)
        if s is not None and d is not None:
            sv = I.walk(st, st.mem.get(s.obj, UNDEF), s.path)
            dv = I.walk(st, st.mem.get(d.obj, UNDEF), d.path)
            if isinstance(sv, SeqV) and isinstance(dv, SeqV):
                I.write_to(st, [(TRUE, d.obj, d.path, None, None)], SeqV(mkcopy(dv.arr, do, n, sv.arr, so), dv.len))
                return
        if n == ONE:
            I.write_to(st, [(TRUE, dst.obj, dst.path, None, None)], I.deref_val(st, src))
            return
    raise IN.Unsupported('copy_nonoverlapping')


def ptr_base(I, st, r):
    if r.view is not None:
        return Ref(r.obj, r.path), r.view[0]
    if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'x':
        return Ref(r.obj, r.path[:-1]), r.path[-1][1]
    return None, None


# ------------------------------------------------------------------ Option / Result
def take_variant(I, st, S, v, var, what):
    if isinstance(v, Gated):
        tot = None
        g = FALSE
        for gg, x in v.alts:
            if isinstance(x, Enum):
                g = bor(g, band(gg, x.guard(var)))
        if not panic_if(I, st, bnot(g), what, S):
            return None, None
        r = None
        for gg, x in v.alts:
            f = x.fields(var) if isinstance(x, Enum) else None
            if f is None:
                continue
            y = f[0] if f else UNIT
            r = y if r is None else merge(gg, y, r)
        return st, r
    if not isinstance(v, Enum):
        return NotImplemented
    g = v.guard(var)
    if not panic_if(I, st, bnot(g), what, S):
        return None, None
    f = v.fields(var)
    if f is None:
        return None, None
    return st, (f[0] if f else UNIT)


@nat('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def opt_unwrap(I, st, S, a):
    return take_variant(I, st, S, a[0], 1, 'unwrap')


@nat('Result::unwrap', 'Result::expect')
def res_unwrap(I, st, S, a):
    return take_variant(I, st, S, a[0], 0, 'unwrap')


RAWG.update((opt_unwrap, res_unwrap))


@nat('Option::is_some', 'Result::is_err')
def is_var1(I, st, S, a):
    v = I.deref_val(st, a[0]) if isinstance(a[0], Ref) else a[0]
    if isinstance(v, Enum):
        return st, v.guard(1)
    return NotImplemented


@nat('Option::is_none', 'Result::is_ok')
def is_var0(I, st, S, a):
    v = I.deref_val(st, a[0]) if isinstance(a[0], Ref) else a[0]
    if isinstance(v, Enum):
        return st, v.guard(0)
    return NotImplemented


@nat('Option::as_ref', 'Option::as_mut')
def opt_as_ref(I, st, S, a):
    if not isinstance(a[0], Ref):
        return NotImplemented
    v = I.deref_val(st, a[0])
    if not isinstance(v, Enum):
        return NotImplemented
    return st, mkopt(v.guard(1), Ref(a[0].obj, a[0].path + (('v', 1), 0)), S.retty)


@nat('Option::take')
def opt_take(I, st, S, a):
    if not isinstance(a[0], Ref):
        return NotImplemented
    v = I.deref_val(st, a[0])
    I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], Enum([(0, 0, TRUE, ())], S.retty))
    return st, v


@nat('Option::unwrap_or')
def opt_unwrap_or(I, st, S, a):
    v = a[0]
    if not isinstance(v, Enum):
        return NotImplemented
    g = v.guard(1)
    if g is FALSE:
        return st, a[1]
    return st, merge(g, v.fields(1)[0], a[1])


@nat('Option::copied', 'Option::cloned')
def opt_copied(I, st, S, a):
    v = a[0]
    if not isinstance(v, Enum):
        return NotImplemented
    g = v.guard(1)
    if g is FALSE:
        return st, Enum([(0, 0, TRUE, ())], S.retty)
    r = v.fields(1)[0]
    if not isinstance(r, (Ref, Gated)):
        return NotImplemented
    if g is TRUE:
        x = load(I, st, r)
    else:
        s = st.fork()
        s.add_pc(g)
        x = load(I, s, r)
    if not isinstance(x, (Poly, Bdd, Agg, SeqV)):
        return NotImplemented
    return st, mkopt(g, x, S.retty)


def load(I, st, r):
    if isinstance(r, Gated):
        return I.gate_join([(g, load(I, st, x)) for g, x in r.alts])
    if isinstance(r, Ref):
        v = I.deref_val(st, r)
        return v
    return r


# ------------------------------------------------------------------ comparison / arithmetic traits
def val(I, st, v):
    n = 0
    while isinstance(v, Ref) and n < 4:
        v = I.deref_val(st, v)
        n += 1
    if isinstance(v, Gated) and all(isinstance(x, Ref) for g, x in v.alts):
        v = load(I, st, v)
    return v


def prim(x):
    return x is not None and (re.match(r'^&*(mut )?([iu](8|16|32|64|128|size)|f64|f32|bool|char)$', x.replace(' ', '')) is not None)


def nty(x):
    x = x.replace('&', '').replace('mut ', '').strip()
    m = re.match(r'^([iu])(8|16|32|64|128|size)$', x)
    if m:
        return ('i', m.group(1) == 'i', 64 if m.group(2) == 'size' else int(m.group(2)))
    if x == 'f64':
        return F64
    if x == 'f32':
        return F32
    return None


@nat('PartialEq::eq', 'PartialEq::ne', 'PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def cmp_op(I, st, S, a):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    o = {'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[S.key.split('::')[1]]
    nt = nty(S.x) if S.x else None
    if isinstance(x, (Poly, Bdd)) and isinstance(y, (Poly, Bdd)):
        if nt is None and S.x not in ('bool', 'char', '&bool', '&A', '&'):
            if S.x and not S.x.startswith('&'):
                return NotImplemented
            nt = guess_float(x, y)
        return st, I.compare(st, o, x, y, nt)
    if o in ('Eq', 'Ne') and isinstance(x, SeqV) and isinstance(y, SeqV):
        n = x.len.cval()
        if n is not None and x.len == y.len and n <= 16:
            r = TRUE
            for i in range(int(n)):
                p, q = I.select(x.arr, C(i), st.ctx()), I.select(y.arr, C(i), st.ctx())
                if not isinstance(p, Poly) or not isinstance(q, Poly):
                    return NotImplemented
                r = band(r, eq(p, q))
            return st, r if o == 'Eq' else bnot(r)
    return NotImplemented


def guess_float(x, y):
    for p in (x, y):
        if isinstance(p, Poly):
            for at in p.atoms():
                if getatom(at).ty in (F64, F32):
                    return F64
    return None


@nat('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'Iterator::max_of')
def ord_minmax(I, st, S, a):
    x, y = a
    if not isinstance(x, Poly) or not isinstance(y, Poly):
        return NotImplemented
    f = pmax if S.key.endswith('max') else pmin
    return st, f(st.ctx(), x, y)


@nat('Ord::clamp')
def ord_clamp(I, st, S, a):
    x, lo, hi = a
    if not all(isinstance(v, Poly) for v in a):
        return NotImplemented
    if not panic_if(I, st, lt(hi, lo), 'clamp', S):
        return None, None
    return st, pmin(st.ctx(), pmax(st.ctx(), x, lo), hi)


@nat('Ord::cmp')
def ord_cmp(I, st, S, a):
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if not isinstance(x, Poly) or not isinstance(y, Poly):
        return NotImplemented
    l, e = lt(x, y), eq(x, y)
    return st, Enum([q for q in ((0, -1, l, ()), (1, 0, band(bnot(l), e), ()), (2, 1, band(bnot(l), bnot(e)), ())) if q[2] is not FALSE], S.retty)


OPS = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'Div': 'Div', 'Rem': 'Rem', 'BitAnd': 'BitAnd', 'BitOr': 'BitOr', 'BitXor': 'BitXor', 'Shl': 'Shl', 'Shr': 'Shr'}


def arith(I, st, S, o, x, y, nt):
    if nt is not None and nt[0] == 'f':
        return st, I.fbin(o, x, y, nt[1])
    if o in ('Div', 'Rem'):
        if not panic_if(I, st, eq0(y), 'divzero', S):
            return None, None
    r = I.ibin(st, o, x, y, nt)
    if isinstance(r, tuple):
        ov, v = r
        if not panic_if(I, st, ov, 'overflow:' + o, S):
            return None, None
        return st, v
    return st, r


def arith_native(I, st, S, a):
    tr = S.key.split('::')[0]
    if not prim(S.x):
        return NotImplemented
    nt = nty(S.x)
    if tr.endswith('Assign'):
        if not isinstance(a[0], Ref):
            return NotImplemented
        x, y = I.deref_val(st, a[0]), val(I, st, a[1])
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return NotImplemented
        s, v = arith(I, st, S, OPS[tr[:-6]], x, y, nt)
        if s is None:
            return None, None
        I.write_to(s, [(TRUE, a[0].obj, a[0].path, None, None)], v)
        return unit(s)
    x, y = val(I, st, a[0]), val(I, st, a[1])
    if not isinstance(x, Poly) or not isinstance(y, Poly) or nt is None:
        return NotImplemented
    return arith(I, st, S, OPS[tr], x, y, nt)


for _o in OPS:
    TABLE['%s::%s' % (_o, _o.lower())] = arith_native
    TABLE['%sAssign::%s_assign' % (_o, _o.lower())] = arith_native


@nat('bool::then_some')
def then_some(I, st, S, a):
    return st, mkopt(I.as_bool(a[0]), a[1], S.retty)


def int_native(f):
    def g(I, st, S, a):
        nt = nty(S.x)
        xs = [val(I, st, v) for v in a]
        if nt is None or not all(isinstance(v, Poly) for v in xs):
            return NotImplemented
        return f(I, st, S, xs, nt)
    return g


def inat(*names):
    def d(f):
        g = int_native(f)
        for n in names:
            TABLE['int::' + n] = g
        return f
    return d


@inat('count_ones')
def i_ones(I, st, S, a, nt):
    return st, ctpop(a[0], nt)


def fabs_term(x):
    """|x| of a real term, the same for x and -x"""
    if x.t and next((c for m, c in x.t if m != ()), 1) < 0:
        x = -x
    return op('abs', (x,), F64, 0, None)


def ctpop(x, nt):
    c = x.cval()
    if c is not None:
        return C(bin(int(c) & ((1 << nt[2]) - 1)).count('1'))
    return op('ctpop', (x,), ('i', False, 32), 0, nt[2])


@inat('abs', 'unsigned_abs')
def i_abs(I, st, S, a, nt):
    x = a[0]
    if S.key.endswith('::abs') and not panic_if(I, st, eq(x, C(int_range(nt)[0])), 'overflow:abs', S):
        return None, None
    ctx = st.ctx()
    if ctx.holds(le(ZERO, x)):
        return st, x
    return st, ite(le(ZERO, x), x, -x)


@inat('abs_diff')
def i_absdiff(I, st, S, a, nt):
    d = a[0] - a[1]
    return st, ite(le(ZERO, d), d, -d)


@inat('saturating_sub')
def i_satsub(I, st, S, a, nt):
    lo, hi = int_range(nt)
    return st, pmin(st.ctx(), pmax(st.ctx(), a[0] - a[1], C(lo)), C(hi))


@inat('saturating_add')
def i_satadd(I, st, S, a, nt):
    lo, hi = int_range(nt)
    v = pmin(st.ctx(), a[0] + a[1], C(hi))
    return st, (pmax(st.ctx(), v, C(lo)) if nt[1] else v)


@inat('saturating_mul')
def i_satmul(I, st, S, a, nt):
    lo, hi = int_range(nt)
    v = pmin(st.ctx(), a[0] * a[1], C(hi))
    return st, (pmax(st.ctx(), v, C(lo)) if nt[1] else v)


def _opn(key):
    m = key.split('_')[-1]
    return {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}[m]


@inat('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'wrapping_shl', 'wrapping_shr')
def i_wrap(I, st, S, a, nt):
    r = I.ibin(st, _opn(S.key), a[0], a[1], nt)
    if isinstance(r, tuple):
        ov, v = r
        if st.ctx().refuted(ov):
            return st, v
        return st, I.wrap(v, nt)
    return st, r


@inat('checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'checked_rem')
def i_checked(I, st, S, a, nt):
    o = _opn(S.key)
    if o in ('Div', 'Rem'):
        g = bnot(eq0(a[1]))
        return st, mkopt(st.ctx().simplify(g), I.ibin(st, o, a[0], a[1], nt), S.retty)
    ov, v = I.ibin(st, o, a[0], a[1], nt)
    return st, mkopt(st.ctx().simplify(bnot(ov)), v, S.retty)


@inat('overflowing_add', 'overflowing_sub', 'overflowing_mul')
def i_overflowing(I, st, S, a, nt):
    ov, v = I.ibin(st, _opn(S.key), a[0], a[1], nt)
    ov = st.ctx().simplify(ov)
    return st, Agg((v if ov is FALSE else I.wrap(v, nt), ov), S.retty)


@inat('div_ceil')
def i_divceil(I, st, S, a, nt):
    if not panic_if(I, st, eq0(a[1]), 'divzero', S):
        return None, None
    return st, idiv(a[0] + a[1] - 1, a[1])


@inat('next_multiple_of')
def i_nmo(I, st, S, a, nt):
    if not panic_if(I, st, eq0(a[1]), 'divzero', S):
        return None, None
    return st, idiv(a[0] + a[1] - 1, a[1]) * a[1]


@inat('is_multiple_of')
def i_imo(I, st, S, a, nt):
    return st, eq0(irem(a[0], a[1]))


@inat('rem_euclid')
def i_reme(I, st, S, a, nt):
    if not panic_if(I, st, eq0(a[1]), 'divzero', S):
        return None, None
    if st.ctx().holds(le(ZERO, a[0])) and st.ctx().holds(lt(ZERO, a[1])):
        return st, irem(a[0], a[1])
    c, d = a[0].cval(), a[1].cval()
    if c is not None and d is not None:
        return st, C(int(c) % abs(int(d)))
    return st, op('rem_euclid', (a[0], a[1]), nt)


@inat('pow')
def i_pow(I, st, S, a, nt):
    n = a[1].cval()
    if n is None or n > 64:
        return NotImplemented
    r = ONE
    for _ in range(int(n)):
        r = r * a[0]
    if not panic_if(I, st, I.overflow(r, nt), 'overflow:pow', S):
        return None, None
    return st, r


@inat('is_power_of_two')
def i_ip2(I, st, S, a, nt):
    c = a[0].cval()
    if c is not None:
        c = int(c)
        return st, TRUE if c > 0 and c & (c - 1) == 0 else FALSE
    return st, eq(ctpop(a[0], nt), ONE)


@inat('trailing_zeros', 'leading_zeros')
def i_tz(I, st, S, a, nt):
    c = a[0].cval()
    if c is not None:
        c = int(c) & ((1 << nt[2]) - 1)
        if S.key.endswith('trailing_zeros'):
            return st, C((c & -c).bit_length() - 1 if c else nt[2])
        return st, C(nt[2] - c.bit_length())
    return st, op(S.key.split('::')[1], (a[0],), ('i', False, 32), 0, nt[2])


# ------------------------------------------------------------------ floats
def fround(x):
    return math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5)


FOLD = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': fround, 'sqrt': math.sqrt, 'ln': math.log, 'log2': math.log2, 'log10': math.log10,
        'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'exp2': lambda x: 2.0 ** x, 'abs': abs}


def frac_part(p):
    """c when p = c*(x - floor(x)), c > 0 an integer"""
    if len(p.t) != 2:
        return None
    for (m1, c1), (m2, c2) in ((p.t[0], p.t[1]), (p.t[1], p.t[0])):
        if c1 == -c2 and c1 > 0 and len(m1) == 1 and m1[0][1] == 1 and len(m2) == 1 and m2[0][1] == 1:
            b = T.getatom(m2[0][0])
            if b.kind == 'op' and b.args[0] == 'floor' and b.args[1] == Poly.atom(T.getatom(m1[0][0])):
                return c1
    return None


def mono_bounds(m, x):
    if m not in ('floor', 'ceil', 'trunc', 'round', 'log2', 'ln', 'log10', 'exp'):
        return (-1, 1) if m in ('sin', 'cos') else (None, None)
    if m == 'floor':
        c = frac_part(x)
        if c is not None and c == int(c):
            return 0, int(c) - 1
    lo, hi = interval(x)
    try:
        f = FOLD[m]
        if m in ('log2', 'ln', 'log10', 'exp'):
            # one unit of slack covers rounding of the library function
            return (None if lo is None or (lo <= 0 and m != 'exp') else Fraction(math.floor(f(float(lo)) * 1024 - 1), 1024),
                    None if hi is None or (hi <= 0 and m != 'exp') else Fraction(math.ceil(f(float(hi)) * 1024 + 1), 1024))
        return (None if lo is None else f(lo)), (None if hi is None else f(hi))
    except (ValueError, OverflowError):
        return None, None


def floatfn(I, st, m, a, call):
    bits = 64
    if call.retty is not None and I.kind(call.retty) == 'float':
        bits = I.ty[call.retty]['bits']
    a = [val(I, st, x) for x in a]
    if not all(isinstance(x, Poly) for x in a):
        return NotImplemented
    x = a[0]
    c = fval(x)
    if m in FOLD:
        if c is not None:
            try:
                return st, fconst(IN.round_f(float(FOLD[m](c)), bits))
            except (ValueError, OverflowError):
                return st, op(m, (x,), F64)
        if m == 'abs':
            return st, fabs_term(x)
        if m == 'sqrt':
            return st, op('sqrt', (x,), F64, 0, None)
        lo, hi = mono_bounds(m, x)
        return st, op(m, (x,), F64, lo, hi)
    if m == 'powi':
        n = a[1].cval()
        if n is not None and 0 <= n <= 4:
            r = ONE
            for _ in range(int(n)):
                r = I.fbin('Mul', r, x, bits)
            return st, r
        return st, op('powi', (x, a[1]), F64)
    if m == 'powf':
        d = fval(a[1])
        if c is not None and d is not None:
            return st, fconst(IN.round_f(c ** d, bits))
        if d == 2.0:
            return st, x * x
        return st, op('powf', (x, a[1]), F64)
    if m in ('max', 'min'):
        y = a[1]
        g = fle0(x - y) if m == 'max' else fle0(y - x)
        return st, ite(g, y, x)
    if m == 'clamp':
        lo, hi = a[1], a[2]
        v = ite(flt0(x - lo), lo, x)
        return st, ite(flt0(hi - x), hi, v)
    if m == 'mul_add':
        return st, I.fbin('Add', I.fbin('Mul', x, a[1], bits), a[2], bits)
    if m == 'log':
        d = fval(a[1])
        if c is not None and d is not None:
            return st, fconst(math.log(c) / math.log(d))
        return st, op('ln', (x,), F64) * inv(op('ln', (a[1],), F64)) if d is None else op('ln', (x,), F64) * fconst(1 / math.log(d))
    if m == 'hypot':
        return st, op('sqrt', (x * x + a[1] * a[1],), F64, 0, None)
    if m == 'recip':
        return st, IN.fdiv(ONE, x, bits)
    if m in ('is_nan', 'is_infinite', 'is_finite'):
        if c is not None:
            return st, FALSE if m != 'is_finite' else TRUE
        if defined(x, st.ctx()):
            return st, FALSE if m != 'is_finite' else TRUE
        return st, bop(m, (x,))
    if m == 'total_cmp':
        l, e = flt0(x - a[1]), feq0(x - a[1])
        return st, Enum([q for q in ((0, -1, l, ()), (1, 0, band(bnot(l), e), ()), (2, 1, band(bnot(l), bnot(e)), ())) if q[2] is not FALSE], call.retty)
    if m == 'to_radians':
        return st, I.fbin('Mul', x, fconst(math.pi / 180.0), bits)
    if m == 'signum':
        return st, op('signum', (x,), F64)
    if m == 'rem_euclid':
        return st, op('frem', (x, a[1]), F64)
    return NotImplemented


def defined(p, ctx, seen=None):
    """the real number exists: no logarithm or root outside its domain and no division by zero inside (finite symbols, real arithmetic)"""
    seen = {} if seen is None else seen
    if isinstance(p, tuple):
        return all(defined(x, ctx, seen) for x in p)
    if not isinstance(p, Poly):
        return True
    for m, c in p.t:
        for a, e in m:
            at = T.getatom(a)
            if e < 0 and not (positive(Poly.atom(at), ctx) or quotient(at, ctx, True)):
                return False
            if at.id in seen:
                if not seen[at.id]:
                    return False
                continue
            seen[at.id] = True
            ok = True
            if at.kind == 'op':
                n = at.args[0] if isinstance(at.args[0], str) else at.name
                args = [x for x in at.args if isinstance(x, (Poly, tuple))]
                if n in ('ln', 'log2', 'log10'):
                    ok = all(positive(x, ctx) for x in flat(args))
                elif n == 'sqrt':
                    ok = all(nonneg(x, ctx) for x in flat(args))
                elif n not in ('fmul', 'sin', 'cos', 'exp', 'abs', 'floor', 'ceil', 'trunc', 'round', 'i2f', 'mod', 'div'):
                    ok = False
            elif at.kind in ('fdiv', 'inv'):
                ok = all(positive(x, ctx) for x in flat(at.args[-1:]))
            ok = ok and all(defined(x, ctx, seen) for x in at.args if isinstance(x, (Poly, tuple)))
            seen[at.id] = ok
            if not ok:
                return False
    return True


def flat(xs):
    out = []
    for x in xs:
        out += flat(x) if isinstance(x, tuple) else [x] if isinstance(x, Poly) else []
    return out


def nonneg(p, ctx, strict=False):
    lo, hi = T.interval(p)
    if lo is not None and (lo > 0 or lo >= 0 and not strict):
        return True
    # a sum of products of factors of known sign
    some = False
    for m, c in p.t:
        if c <= 0:
            return False
        if all(e < 0 and factor(a, ctx, True) or e % 2 == 0 or factor(a, ctx, False) for a, e in m):
            some = some or strict and all(factor(a, ctx, True) for a, e in m)
        else:
            return False
    return some or not strict


def factor(a, ctx, strict):
    at = T.getatom(a)
    lo, hi = T.interval(Poly.atom(at))
    if lo is not None and (lo > 0 or lo >= 0 and not strict):
        return True
    return quotient(at, ctx, strict)


def quotient(at, ctx, strict):
    if at.kind in ('fdiv', 'inv', 'par'):
        xs = flat(at.args)
        return bool(xs) and all(nonneg(x, ctx, strict or x is xs[-1]) for x in xs)
    return False


def positive(p, ctx):
    return nonneg(p, ctx, True)


def intrinsic(I, st, m, args, call):
    m0 = re.sub(r'f(16|32|64|128)$', '', m)
    a = args
    if m0 in ('floor', 'ceil', 'trunc', 'round', 'sqrt', 'sin', 'cos', 'exp', 'exp2', 'log2', 'log10', 'powi', 'powf'):
        return floatfn(I, st, m0, a, call)
    if m0 == 'log':
        return floatfn(I, st, 'ln', a, call)
    if m0 == 'fabs':
        return floatfn(I, st, 'abs', a, call)
    if m0 == 'fma':
        return floatfn(I, st, 'mul_add', a, call)
    if m == 'ctpop':
        t = I.numty(call.argtys[0]) if hasattr(call, 'argtys') and call.argtys[0] is not None else ('i', False, 32)
        return st, ctpop(I.as_int(a[0]), t)
    if m in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume'):
        return st, UNIT
    if m in ('likely', 'unlikely', 'black_box'):
        return st, a[0]
    if m in ('ub_checks',):
        return st, FALSE
    if m in ('saturating_add', 'saturating_sub', 'wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        t = I.numty(call.retty)
        name = {2: 'i', 1: 'i'}
        x, y = I.as_int(a[0]), I.as_int(a[1])
        lo, hi = int_range(t)
        if m.startswith('sat'):
            v = x + y if m.endswith('add') else x - y
            v = pmin(st.ctx(), v, C(hi))
            return st, pmax(st.ctx(), v, C(lo))
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m.split('_')[1]]
        ov, v = I.ibin(st, o, x, y, t)
        return st, v if st.ctx().refuted(ov) else I.wrap(v, t)
    if m in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        t = I.numty(call.argtys[0])
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[m.split('_')[0]]
        ov, v = I.ibin(st, o, I.as_int(a[0]), I.as_int(a[1]), t)
        return st, Agg((v, ov), call.retty)
    if m in ('arith_offset', 'offset', 'ptr_offset'):
        if isinstance(a[0], Ref):
            return st, I.ptr_offset(a[0], I.as_int(a[1]))
    if m == 'typed_swap_nonoverlapping':
        return mem_swap(I, st, Site(call.inst, m, None, call), a)
    if m in ('copy', 'copy_nonoverlapping'):
        copy_nonoverlapping(I, st, a[0], a[1], a[2])
        return st, UNIT
    if m in ('transmute', 'transmute_unchecked', 'read_via_copy'):
        if m == 'read_via_copy' and isinstance(a[0], Ref):
            return st, I.deref_val(st, a[0])
        return st, I.cast(st, 'Transmute', a[0], call.argtys[0], call.retty)
    if m == 'write_via_move' and isinstance(a[0], Ref):
        I.write_to(st, [(TRUE, a[0].obj, a[0].path, None, None)], a[1])
        return st, UNIT
    return NotImplemented


def complex_ops(I, st, inst, args, call):
    p = inst['path']
    if p.endswith('::norm_sqr'):
        v = I.deref_val(st, args[0]) if isinstance(args[0], Ref) else args[0]
        if isinstance(v, Agg) and len(v.f) == 2:
            re_, im = v.f
            return st, re_ * re_ + im * im
    if p.endswith('Zero>::zero') and call.retty is not None and (I.adt_path(call.retty) or '').endswith('Complex'):
        return st, Agg((ZERO, ZERO), call.retty)
    if 'Complex' in p and p.endswith('Clone>::clone') and isinstance(args[0], Ref):
        return st, I.deref_val(st, args[0])
    return NotImplemented


@nat('AddAssign::add_assign_unused')
def _unused(I, st, S, a):
    return NotImplemented
