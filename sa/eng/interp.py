"""Abstract interpreter over the dumped MIR: context-sensitive, path conditions as BDDs, states joined
at control-flow merges, loops summarised by induction variables / element-wise recurrences."""
import json
from .terms import *
from . import terms as T
from .lp import Ctx
from .values import *


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.inst = d['instances']
        self.ty = d['types']
        self.dyns = {}
        for e in d['dyns']:
            self.dyns[(e['src'], e['dyn'])] = e['vtable']
        self.dyn_by_src = {}
        for e in d['dyns']:
            self.dyn_by_src.setdefault(e['src'], []).append(e)
        self.files = d['files']
        self.statics = d['statics']
        self.byname = {}
        self.bypath = {}
        for i, x in enumerate(self.inst):
            self.byname.setdefault(x['name'], i)
            self.bypath.setdefault(x['path'], []).append(i)
        self.items = d['items']
        self._cfg = {}
        for t in self.ty:                # discriminants are dumped as unsigned
            if t['k'] == 'adt' and t.get('variants') and t.get('adt') == 'enum':
                for v in t['variants']:
                    n = v['discr']
                    if not isinstance(n, int):
                        continue
                    if t['name'] == 'std::cmp::Ordering':
                        v['discr'] = n - 256 if n >= 128 else n
                    elif n >= 1 << 63:
                        v['discr'] = n - (1 << (64 if n < 1 << 64 else 128))

    def find(self, path):
        """instances with that (crate-qualified or suffix) path"""
        r = self.bypath.get(path)
        if r:
            return r
        return [i for i, x in enumerate(self.inst) if x['path'].endswith(path)]

    def span(self, sp):
        if not sp:
            return '?'
        return '%s:%d' % (self.files[sp[0]], sp[1])

    def tname(self, t):
        return self.ty[t]['name']

    def cfg(self, i):
        r = self._cfg.get(i)
        if r is None:
            r = CFG(self.inst[i]['body'])
            self._cfg[i] = r
        return r


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for v, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[5] is None else [t[5]]
    if k == 'assert':
        return [t[4]]
    return []


class CFG:
    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = [term_succ(b[1]) for b in bl]
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
                elif s in onstack:
                    back.append((b, s))
            else:
                stack.pop()
                onstack.discard(b)
                post.append(b)
        self.rpo = post[::-1]
        self.reach = seen
        pred = {b: [] for b in seen}
        for b in seen:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}
        for b, h in back:
            body_ = self.loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x not in body_:
                    body_.add(x)
                    work.extend(pred[x])
        # include in a loop the blocks needed so that RPO order works: nothing else


class State:
    __slots__ = ('mem', 'pc', 'assume', '_ctx')

    def __init__(self, mem=None, pc=TRUE, assume=()):
        self.mem = {} if mem is None else mem
        self.pc = pc
        self.assume = assume
        self._ctx = None

    def fork(self):
        s = State(dict(self.mem), self.pc, self.assume)
        s._ctx = self._ctx
        return s

    def ctx(self):
        c = self._ctx
        if c is None or c.pc is not self.pc or c.assume is not self.assume:
            c = Ctx(self.pc, self.assume)
            self._ctx = c
        return c

    def add_pc(self, g):
        self.pc = band(self.pc, g)

    def add_assume(self, cond):
        if cond is TRUE:
            return
        if self.ctx().holds(cond):
            return
        self.assume = self.assume + ((self.pc, cond),)


def merge_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    pc = bor(a.pc, b.pc)
    g = constrain(a.pc, pc)
    mem = {}
    bm = b.mem
    for k, v in a.mem.items():
        w = bm.get(k, v)
        mem[k] = v if v is w else merge(g, v, w)
    for k, w in bm.items():
        if k not in mem:
            mem[k] = w
    if a.assume is b.assume:
        asm = a.assume
    else:
        n = 0
        m = min(len(a.assume), len(b.assume))
        while n < m and a.assume[n] is b.assume[n]:
            n += 1
        asm = a.assume + tuple(x for x in b.assume[n:] if x not in a.assume[n:])
    return State(mem, pc, asm)


class Limit(Exception):
    pass


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ('inst', 'id', 'body', 'iters', 'cfg', 'ntmp')


_ctxids = {}


def ctx_intern(key):
    r = _ctxids.get(key)
    if r is None:
        r = len(_ctxids)
        _ctxids[key] = r
    return r


class Call:
    __slots__ = ('inst', 'ctx', 'span', 'retty', 'argtys', 'caller', 'idx')
    def __init__(self, inst, ctx, span, retty, idx=None, caller=None):
        self.inst = inst
        self.ctx = ctx
        self.span = span
        self.retty = retty
        self.idx = idx
        self.caller = caller


class Interp:
    MAXDEPTH = 70
    def __init__(self, prog, external=None, unroll=34, max_blocks=400000):
        self.p = prog
        self.ty = prog.ty
        self.events = []
        self.quiet = 0
        self.small_sorts = False
        self.notes = set()
        self.created = []
        self.loopstack = []
        self.depth = 0
        self.external = external      # hook(I, st, inst, args, call) -> (st, ret) or None
        self.unroll = unroll
        self.peel = 2
        self.nblocks = 0
        self.max_blocks = max_blocks
        self.stats = {'functions': set(), 'calls': 0, 'loops': 0, 'natives': set(), 'external': set()}
        self.objty = {}
        self.frame_bodies = {}
        self.intercept = {}           # instance idx -> hook(I, st, args, call)
        from . import natives, iters
        self.natives = natives
        self.trace_spans = []

    # ------------------------------------------------------------ events
    def event(self, kind, st, **kw):
        if self.quiet:
            return
        e = dict(kind=kind, pc=st.pc, ctx=st.ctx(), loops=tuple(self.loopstack), **kw)
        self.events.append(e)
        return e

    def note(self, s):
        self.notes.add(s)

    # ------------------------------------------------------------ types
    def kind(self, t):
        return self.ty[t]['k']

    def numty(self, t):
        x = self.ty[t]
        k = x['k']
        if k == 'int':
            return ('i', x['signed'], x['bits'])
        if k == 'char':
            return ('i', False, 32)
        if k == 'float':
            return F64 if x['bits'] == 64 else F32
        return None

    def targ(self, t, n=0):
        """n-th type argument of an adt"""
        a = [x['t'] for x in self.ty[t]['args'] if 't' in x]
        return a[n]

    def inst_targs(self, inst):
        return [x['t'] for x in inst['args'] if 't' in x]

    def adt_path(self, t):
        x = self.ty[t]
        return x.get('path') if x['k'] == 'adt' else None

    def build(self, t, gen, proj=()):
        """symbolic value of type t; leaves from gen"""
        x = self.ty[t]
        k = x['k']
        if len(proj) > 14:
            return gen.opq(proj, t)
        if k == 'bool':
            return gen.bool(proj)
        if k in ('int', 'char', 'float'):
            return gen.num(self.numty(t), proj)
        if k == 'array':
            n = x['len']
            return SeqV(gen.arr(x['elem'], proj), C(n) if n is not None else gen.num(USIZE, proj + ('len',)))
        if k == 'slice':
            return SeqV(gen.arr(x['elem'], proj), gen.len(proj))
        if k == 'tuple':
            return Agg(tuple(self.build(e, gen, proj + (str(i),)) for i, e in enumerate(x['elems'])), t)
        if k in ('ref', 'ptr'):
            to = x['to']
            return gen.ref(self, to, proj)
        if k == 'closure':
            return Agg(tuple(self.build(e, gen, proj + ('up%d' % i,)) for i, e in enumerate(x['upvars'])), t)
        if k == 'fndef':
            return FnVal(x['inst'])
        if k == 'never':
            return UNDEF
        if k == 'adt':
            p = x['path']
            if p in ('std::vec::Vec', 'std::collections::VecDeque', 'alloc::vec::Vec'):
                return SeqV(gen.arr(self.targ(t), proj), gen.len(proj))
            if p == 'std::boxed::Box':
                to = self.targ(t)
                return BoxV(self.build(to, gen, proj), None)
            if p == 'std::marker::PhantomData':
                return Agg((), t)
            if p == 'std::string::String':
                return gen.opq(proj, t)
            if x['adt'] == 'struct' and x['crate'] in ('rusty_chromaprint', 'fpcalc', 'compare', 'num_complex', 'core', 'alloc') and x['variants'] and not self.is_std_iter(p):
                vs = x['variants'][0]['fields']
                if p in ('std::sync::Arc', 'std::rc::Rc', 'std::cell::UnsafeCell', 'std::cell::RefCell'):
                    return gen.opq(proj, t)
                if len(vs) == 0:
                    return Agg((), t)
                return Agg(tuple(self.build(ft, gen, proj + (fn,)) for fn, ft in vs), t)
            if x['adt'] == 'enum' and x['variants']:
                alts = []
                rest = TRUE
                vs = x['variants']
                for i, v in enumerate(vs):
                    g = rest if i == len(vs) - 1 else band(rest, gen.bool(proj + ('is_' + v['name'],)))
                    if i < len(vs) - 1:
                        rest = band(rest, bnot(gen.bool(proj + ('is_' + v['name'],))))
                    alts.append((i, v['discr'], g, tuple(self.build(ft, gen, proj + (v['name'], fn)) for fn, ft in v['fields'])))
                return Enum(alts, t)
        return gen.opq(proj, t)

    def is_std_iter(self, p):
        return p.startswith('std::iter::') or p in ('std::slice::Iter', 'std::slice::IterMut')

    def symbolic(self, t, name, st):
        return self.build(t, SymGen(self, st, name))

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        ty, v = c['ty'], c['v']
        return self.const_val(st, ty, v)

    def const_val(self, st, ty, v):
        x = self.ty[ty]
        k = x['k']
        if k == 'fndef':
            return FnVal(x['inst'])
        if v is None:
            return self.build(ty, UfGen(self, st, 'const?', ()))
        if k == 'bool':
            return TRUE if v in (True, 1) else FALSE
        if k in ('int', 'char'):
            return C(int(v))
        if k == 'float':
            if isinstance(v, dict):
                import struct
                if 'f64' in v:
                    return fconst(struct.unpack('>d', bytes.fromhex(v['f64'].zfill(16)))[0])
                if 'f32' in v:
                    return fconst(struct.unpack('>f', bytes.fromhex(v['f32'].zfill(8)))[0])
        if isinstance(v, dict):
            if v.get('zst'):
                if k == 'closure':
                    return Agg((), ty)
                if k == 'array':
                    return SeqV(ArrList(()), ZERO)
                if k == 'adt' and x.get('adt') == 'enum':
                    vs = x['variants']
                    if len(vs) >= 1:
                        return Enum([(0, vs[0]['discr'], TRUE, ())], ty)
                return Agg((), ty)
            if 'fn' in v:
                return FnVal(v['fn'])
            if 'ref' in v:
                to = x.get('to')
                if to is None:
                    to = self.targ(ty)
                obj = ('const', json.dumps(v['ref'], sort_keys=True), to)
                if obj not in st.mem:
                    st.mem[obj] = self.const_val(st, to, v['ref'])
                val = st.mem[obj]
                view = None
                if self.kind(to) == 'slice' and isinstance(val, SeqV):
                    view = (ZERO, val.len)
                return Ref(obj, (), view)
            if 'str' in v:
                return Opq('str', (v['str'],))
            if 'arr' in v:
                et = x.get('elem')
                return SeqV(ArrList([self.const_val(st, et, e) for e in v['arr']]), C(len(v['arr'])))
            if 'hex' in v:
                b = bytes.fromhex(v['hex'])
                return SeqV(ArrList([C(e) for e in b]), C(len(b)))
            if 'tup' in v:
                return Agg(tuple(self.const_val(st, et, e) for et, e in zip(x['elems'], v['tup'])), ty)
            if 'adt' in v and 'variants' not in x:
                return Opq('const', (x['name'], repr(v)))
            if 'adt' in v:
                var = x['variants'][v['adt']]
                f = tuple(self.const_val(st, ft, e) for (fn, ft), e in zip(var['fields'], v['f']))
                if x['adt'] == 'enum':
                    return Enum([(v['adt'], var['discr'], TRUE, f)], ty)
                return Agg(f, ty)
            if 'static' in v:
                s = self.p.statics[v['static']]
                obj = ('static', v['static'])
                if obj not in st.mem:
                    self.objty[obj] = s['ty']
                    st.mem[obj] = self.const_val(st, s['ty'], s['init']) if s.get('init') is not None else self.build(s['ty'], UfGen(self, st, 'static:' + s['name'], ()))
                return Ref(obj, ())
        return self.build(ty, UfGen(self, st, 'const?', ()))

    # ------------------------------------------------------------ places
    # a place is list of (guard, obj, path, view, dyn, tyid)
    def resolve(self, fr, st, pl):
        base = pl[0]
        cur = [(TRUE, (fr.id, base), (), None, None)]
        ty = fr.body['locals'][base]
        raw = False
        for pr in pl[1:]:
            k = pr[0]
            nxt = []
            if k == '*':
                to = self.ty[ty].get('to')
                if to is None and self.adt_path(ty) == 'std::boxed::Box':
                    to = self.targ(ty)
                for g, obj, path, view, dyn in cur:
                    v = self.read_at(st, obj, path, view)
                    self._deref(st, g, v, obj, path, nxt)
                ty = to if to is not None else ty
            elif k == 'f':
                for g, obj, path, view, dyn in cur:
                    if self._transparent(ty):
                        nxt.append((g, obj, path, view, dyn))
                    else:
                        nxt.append((g, obj, path + (pr[1],), None, None))
                ty = pr[2]
            elif k == 'v':
                for g, obj, path, view, dyn in cur:
                    nxt.append((g, obj, path + (('v', pr[1]),), None, None))
            elif k == 'i':
                idx = self.read_at(st, (fr.id, pr[1]), (), None)
                idx = self.as_int(idx)
                for g, obj, path, view, dyn in cur:
                    i2 = idx if view is None else idx + view[0]
                    nxt.append((g, obj, path + (('x', i2),), None, None))
                ty = self.ty[ty].get('elem', ty)
            elif k == 'ci':
                for g, obj, path, view, dyn in cur:
                    if pr[3]:
                        n = view[1] if view is not None else self.seq_len(st, obj, path)
                        i2 = n - pr[1]
                    else:
                        i2 = C(pr[1])
                    if view is not None:
                        i2 = i2 + view[0]
                    nxt.append((g, obj, path + (('x', i2),), None, None))
                ty = self.ty[ty].get('elem', ty)
            elif k == 'ss':
                for g, obj, path, view, dyn in cur:
                    if view is None:
                        view = (ZERO, self.seq_len(st, obj, path))
                    frm, to_ = pr[1], pr[2]
                    if pr[3]:
                        n = view[1] - frm - to_
                    else:
                        n = C(to_ - frm)
                    nxt.append((g, obj, path, (view[0] + frm, n), None))
            else:
                nxt = cur
            cur = nxt
        return cur, ty

    def _transparent(self, ty):
        p = self.adt_path(ty)
        return p in ('std::boxed::Box', 'std::ptr::Unique', 'core::ptr::Unique', 'std::ptr::NonNull', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling', 'std::mem::maybe_dangling::MaybeDangling')

    def _deref(self, st, g, v, obj, path, out):
        if isinstance(v, Gated):
            for g2, v2 in v.alts:
                gg = band(g, g2)
                if gg is not FALSE and band(gg, st.pc) is not FALSE:
                    self._deref(st, gg, v2, obj, path, out)
            return
        if isinstance(v, Ref):
            out.append((g, v.obj, v.path, v.view, v.dyn))
        elif isinstance(v, BoxV):
            view = None
            if isinstance(v.inner, SeqV):
                view = (ZERO, v.inner.len)
            out.append((g, obj, path + ('b',), view, v.dyn))
        elif v is UNDEF:
            raise Unsupported('deref of undef')
        else:
            # opaque pointer: an object identified by the opaque value
            o = ('opq', v)
            if o not in st.mem:
                st.mem[o] = Opq('pointee', (v,))
            out.append((g, o, (), None, None))

    def seq_len(self, st, obj, path):
        v = self.read_at(st, obj, path, None)
        return self.len_of(v)

    def len_of(self, v):
        if isinstance(v, SeqV):
            return v.len
        if isinstance(v, BoxV):
            return self.len_of(v.inner)
        if isinstance(v, Gated):
            r = None
            for g, x in v.alts:
                l = self.len_of(x)
                r = l if r is None else ite(g, l, r)
            return r
        return op('len', (v,), USIZE, 0, (1 << 63) - 1)

    def read_at(self, st, obj, path, view):
        v = st.mem.get(obj, UNDEF)
        return self.walk(st, v, path)

    def walk(self, st, v, path):
        for n, p in enumerate(path):
            if isinstance(v, Gated):
                rest = path[n:]
                return self.gate_join([(g, self.walk(st, x, rest)) for g, x in v.alts])
            if isinstance(p, int):
                if isinstance(v, Agg):
                    v = v.f[p] if p < len(v.f) else UNDEF
                elif isinstance(v, (BoxV, SeqV, Ref)):
                    pass
                elif isinstance(v, Enum) and len(v.alts) == 1:
                    f = v.alts[0][3]
                    v = f[p] if p < len(f) else UNDEF
                elif v is UNDEF:
                    return UNDEF
                else:
                    v = Opq('fld', (v, p))
            elif p == 'b':
                if isinstance(v, BoxV):
                    v = v.inner
                else:
                    v = Opq('box', (v,))
            elif p[0] == 'v':
                if isinstance(v, Enum):
                    f = v.fields(p[1])
                    v = Agg(f) if f is not None else UNDEF
                elif v is UNDEF:
                    return UNDEF
                else:
                    v = Opq('variant', (v, p[1]))
            elif p[0] == 'x':
                if isinstance(v, BoxV):
                    v = v.inner
                if isinstance(v, SeqV):
                    v = self.select(v.arr, p[1], st.ctx())
                elif v is UNDEF:
                    return UNDEF
                else:
                    v = Opq('idx', (v, p[1]))
        return v

    def gate_join(self, alts):
        r = None
        for g, x in alts:
            r = x if r is None else merge(g, x, r)
        return r

    def read_place(self, fr, st, pl):
        cur, ty = self.resolve(fr, st, pl)
        vals = []
        for g, obj, path, view, dyn in cur:
            v = self.walk(st, st.mem.get(obj, UNDEF), path)
            # raw pointer / NonNull read out of a Box
            if isinstance(v, BoxV) and self.kind(ty) in ('ptr', 'ref') or isinstance(v, BoxV) and self.adt_path(ty) in ('std::ptr::NonNull', 'std::ptr::Unique'):
                v = Ref(obj, path + ('b',), (ZERO, v.inner.len) if isinstance(v.inner, SeqV) else None, v.dyn)
            vals.append((g, v))
        v = self.gate_join(vals)
        return self.typed(st, v, ty), ty

    def typed(self, st, v, ty):
        """expand an opaque value read at a known type"""
        if isinstance(v, Opq) and v.name != 'str':
            k = self.kind(ty)
            if k in ('int', 'float', 'bool', 'char', 'array', 'tuple', 'ref', 'ptr') or (k == 'adt' and (self.ty[ty].get('variants') or self.adt_path(ty) in ('std::vec::Vec', 'std::boxed::Box', 'std::collections::VecDeque'))):
                return self.build(ty, UfGen(self, st, v.name, v.args))
        return v

    def write_place(self, fr, st, pl, val):
        cur, ty = self.resolve(fr, st, pl)
        self.write_to(st, cur, val, ty)

    def write_to(self, st, cur, val, ty=None):
        for g, obj, path, view, dyn in cur:
            old = st.mem.get(obj, UNDEF)
            if g is TRUE or bimplies(st.pc, g):
                st.mem[obj] = self.update(st, old, path, val)
            else:
                cv = self.walk(st, old, path)
                st.mem[obj] = self.update(st, old, path, merge(g, val, cv))
            if ty is not None and obj not in self.objty and not path:
                self.objty[obj] = ty

    def update(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        rest = path[1:]
        if isinstance(v, Gated):
            return gated([(g, self.update(st, x, path, val)) for g, x in v.alts])
        if isinstance(p, int):
            if v is UNDEF:
                v = Agg(())
            if isinstance(v, Agg):
                old = v.f[p] if p < len(v.f) else UNDEF
                return v.with_field(p, self.update(st, old, rest, val))
            if isinstance(v, (BoxV, SeqV)):
                return self.update(st, v, rest, val)
            if isinstance(v, Opq):
                return Opq('upd', (v, p, rest and T.show(rest), val))
            raise Unsupported('field update of %s' % type(v).__name__)
        if p == 'b':
            if isinstance(v, BoxV):
                return BoxV(self.update(st, v.inner, rest, val), v.dyn)
            if v is UNDEF:
                return BoxV(self.update(st, UNDEF, rest, val))
            return Opq('upd', (v, 'b', val))
        if p[0] == 'v':
            if isinstance(v, Enum) and rest:
                f = v.fields(p[1]) or ()
                i = rest[0]
                old = f[i] if i < len(f) else UNDEF
                return v.with_field(p[1], i, self.update(st, old, rest[1:], val))
            return Opq('upd', (v, p, val))
        if p[0] == 'x':
            if isinstance(v, BoxV):
                return BoxV(self.update(st, v.inner, path, val), v.dyn)
            if isinstance(v, SeqV):
                idx = p[1]
                if rest:
                    old = self.select(v.arr, idx, st.ctx())
                    val = self.update(st, old, rest, val)
                if not rest:
                    self.event('store', st, seq=v, idx=idx, val=val)
                return SeqV(self.store(v.arr, idx, val, st.ctx()), v.len)
            return Opq('upd', (v, idx_key(p), val))
        raise Unsupported('update path %r' % (p,))

    def store(self, arr, idx, val, ctx):
        # overwrite an earlier store when indices are equal
        if isinstance(arr, ArrStore) and arr.idx != idx and ctx.equal(arr.idx, idx):
            return mkstore(arr.base, idx, val)
        if isinstance(arr, ArrFill) and arr.v == val:
            return arr
        return mkstore(arr, idx, val)

    # ------------------------------------------------------------ arrays
    def select(self, arr, idx, ctx, depth=0):
        ci = idx.cval()
        while ci is not None and isinstance(arr, ArrStore):
            cj = arr.idx.cval()
            if cj is None:
                break
            if cj == ci:
                return arr.val
            arr = arr.base
        if isinstance(arr, ArrFill):
            return arr.v
        if isinstance(arr, (ArrSym, ArrOp)):
            return self.sym_elem(arr, idx)
        if depth > 120:
            return Opq('deep', (arr, idx))
        if isinstance(arr, ArrList):
            c = idx.cval()
            if c is not None:
                c = int(c)
                if 0 <= c < len(arr.vals):
                    return arr.vals[c]
                return UNDEF
            r = None
            if not arr.vals:
                return UNDEF
            if all(v == arr.vals[0] for v in arr.vals):
                return arr.vals[0]
            for i, v in enumerate(arr.vals):
                if i == 0:
                    r = v
                    continue
                g = ctx.simplify(eq(idx, C(i)))
                r = merge(g, v, r)
            return r
        if isinstance(arr, ArrStore):
            g = ctx.simplify(eq(idx, arr.idx))
            if g is TRUE:
                return arr.val
            if g is FALSE:
                return self.select(arr.base, idx, ctx, depth + 1)
            rest = self.select(arr.base, idx, ctx.cond(bnot(g)), depth + 1)
            return merge(g, arr.val, rest)
        if isinstance(arr, ArrComp):
            return self._piece(arr.base, arr.lo, arr.n, idx, ctx, depth,
                               lambda j: T.subst(arr.val, {arr.var.as_atom().id: j}))
        if isinstance(arr, ArrCopy):
            return self._piece(arr.base, arr.dlo, arr.n, idx, ctx, depth,
                               lambda j: self.select(arr.src, arr.slo + j, ctx, depth + 1))
        if isinstance(arr, ArrShift):
            return self.select(arr.base, idx + arr.off, ctx, depth + 1)
        if isinstance(arr, ArrIte):
            g = ctx.simplify(arr.g)
            if g is TRUE:
                return self.select(arr.a, idx, ctx, depth + 1)
            if g is FALSE:
                return self.select(arr.b, idx, ctx, depth + 1)
            return merge(g, self.select(arr.a, idx, ctx.cond(g), depth + 1), self.select(arr.b, idx, ctx.cond(bnot(g)), depth + 1))
        return Opq('elem?', (arr, idx))

    def _piece(self, base, lo, n, idx, ctx, depth, f):
        j = idx - lo
        inn = ctx.simplify(band(le(ZERO, j), lt(j, n)))
        if inn is TRUE:
            return f(j)
        if inn is FALSE:
            return self.select(base, idx, ctx, depth + 1)
        return merge(inn, f(j), self.select(base, idx, ctx.cond(bnot(inn)), depth + 1))

    def sym_elem(self, arr, idx):
        ety = arr.elty
        if isinstance(ety, int):
            return self.build(ety, ElemGen(self, arr, idx))
        if ety == 'f':
            return Poly.atom(T._atom('elem', (arr, idx, ()), F64))
        if isinstance(ety, tuple):
            lo, hi = int_range(ety)
            return Poly.atom(T._atom('elem', (arr, idx, ()), ety, lo, hi))
        if isinstance(ety, V):
            return self.like(ety, ElemGen(self, arr, idx), ())
        return Opq('elem', (arr, idx))

    def like(self, shape, gen, proj):
        if isinstance(shape, Poly):
            isf = any(getatom(a).ty in (F64, F32) for a in shape.atoms())
            return gen.num(F64 if isf else ('n',), proj)
        if isinstance(shape, Bdd):
            return gen.bool(proj)
        if isinstance(shape, Agg):
            return Agg([self.like(x, gen, proj + (str(i),)) for i, x in enumerate(shape.f)], shape.ty)
        return gen.opq(proj, None)

    # ------------------------------------------------------------ operands / rvalues
    def as_int(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Bdd):
            return ite(v, ONE, ZERO)
        return op('val', (v,), ('n',))

    def as_bool(self, v):
        if isinstance(v, Bdd):
            return v
        if isinstance(v, Poly):
            return bnot(eq0(v))
        return bop('val', (v,))

    def operand(self, fr, st, o):
        k = o[0]
        if k in ('c', 'm'):
            v, ty = self.read_place(fr, st, o[1])
            if k == 'c' and isinstance(v, BoxV):
                # compiler-made copy of the box pointer: an alias, not a second box
                cur, _ = self.resolve(fr, st, o[1])
                v = self.gate_join([(g, Ref(obj, path + ('b',), (ZERO, self.len_of(v)) if isinstance(v.inner, SeqV) else None, v.dyn)) for g, obj, path, view, dyn in cur])
            return v, ty
        if k == 'k':
            return self.const(st, o[1]), o[1]['ty']
        if k == 'rt':
            return TRUE, None
        raise Unsupported('operand ' + k)

    def optype(self, fr, o):
        if o[0] == 'k':
            return o[1]['ty']
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        return None

    def place_ty(self, fr, pl):
        ty = fr.body['locals'][pl[0]]
        for pr in pl[1:]:
            if pr[0] == 'f':
                ty = pr[2]
            elif pr[0] == '*':
                to = self.ty[ty].get('to')
                ty = to if to is not None else (self.targ(ty) if self.ty[ty]['k'] == 'adt' else ty)
            elif pr[0] in ('i', 'ci'):
                ty = self.ty[ty].get('elem', ty)
        return ty

    def make_ref(self, cur):
        alts = []
        for g, obj, path, view, dyn in cur:
            alts.append((g, Ref(obj, path, view, dyn)))
        return gated(alts)

    def rvalue(self, fr, st, r, destty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])[0]
        if k in ('ref', 'addr'):
            cur, ty = self.resolve(fr, st, r[2])
            out = []
            for g, obj, path, view, dyn in cur:
                v = self.walk(st, st.mem.get(obj, UNDEF), path)
                if isinstance(v, (BoxV,)) and dyn is None and self.kind(ty) == 'dyn':
                    dyn = v.dyn
                if view is None and self.kind(ty) == 'slice' and isinstance(v, SeqV):
                    view = (ZERO, v.len)
                out.append((g, obj, path, view, dyn))
            return self.make_ref(out)
        if k == 'bin' or k == 'cbin':
            a, ta = self.operand(fr, st, r[2])
            b, tb = self.operand(fr, st, r[3])
            return self.binop(st, r[1], a, b, ta, tb, k == 'cbin')
        if k == 'un':
            a, ta = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                if isinstance(a, Bdd):
                    return bnot(a)
                nt = self.numty(ta)
                if isinstance(a, Poly) and nt:
                    return (-a - 1) if nt[1] else C((1 << nt[2]) - 1) - a
            if r[1] == 'Neg':
                a = self.as_int(a)
                return -a
            if r[1] == 'PtrMetadata':
                return map_gated_join(self, a, lambda v: v.view[1] if isinstance(v, Ref) and v.view is not None else (self.seq_len(st, v.obj, v.path) if isinstance(v, Ref) and self.pointee_kind(ta) in ('slice', 'str') else (op('len', (v,), USIZE, 0, (1 << 63) - 1) if self.pointee_kind(ta) in ('slice', 'str') else Agg(()))))
            return Opq('un' + r[1], (a,))
        if k == 'len':
            cur, ty = self.resolve(fr, st, r[1])
            g, obj, path, view, dyn = cur[0]
            return view[1] if view is not None else self.seq_len(st, obj, path)
        if k == 'discr':
            v, ty = self.read_place(fr, st, r[1])
            return self.discr(st, v, ty)
        if k == 'agg':
            vals = [self.operand(fr, st, o)[0] for o in r[2]]
            kk = r[1]
            if kk[0] == 'array':
                return SeqV(ArrList(vals), C(len(vals)))
            if kk[0] == 'tuple':
                return Agg(vals, destty)
            if kk[0] == 'closure':
                return Agg(vals, kk[1])
            if kk[0] == 'adt':
                x = self.ty[kk[1]]
                if x['adt'] == 'enum':
                    var = x['variants'][kk[2]] if x.get('variants') else {'discr': kk[2]}
                    return Enum([(kk[2], var['discr'], TRUE, tuple(vals))], kk[1])
                if x['adt'] == 'union':
                    return vals[0] if len(vals) == 1 else UNDEF
                if self._transparent(kk[1]) and len(vals) >= 1:
                    return vals[0]
                return Agg(vals, kk[1])
            if kk[0] == 'rawptr':
                v = vals[0]
                if isinstance(v, Ref) and isinstance(vals[1], Poly):
                    p, view = v.path, v.view
                    if view is None:
                        if p and isinstance(p[-1], tuple) and p[-1][0] == 'x':
                            return Ref(v.obj, p[:-1], (p[-1][1], vals[1]))
                        return Ref(v.obj, p, (ZERO, vals[1]))
                    return Ref(v.obj, p, (view[0], vals[1]), v.dyn)
                return v
            return Opq('agg', vals)
        if k == 'repeat':
            v = self.operand(fr, st, r[1])[0]
            return SeqV(ArrFill(v), C(r[2]) if r[2] is not None else fresh('rep', USIZE))
        if k == 'cast':
            v, ts = self.operand(fr, st, r[2])
            return self.cast(st, r[1], v, r[4] if r[4] is not None else ts, r[3])
        if k == 'tls':
            return Opq('tls', (r[1],))
        raise Unsupported('rvalue ' + k)

    def pointee_kind(self, t):
        x = self.ty[t]
        to = x.get('to')
        if to is None:
            return None
        return self.ty[to]['k']

    def discr(self, st, v, ty):
        if isinstance(v, Enum):
            return v.discr()
        if isinstance(v, Gated):
            return map_gated_join(self, v, lambda x: self.discr(st, x, ty))
        if isinstance(v, Poly):
            return v
        if v is UNDEF:
            raise Unsupported('discriminant of undef')
        return op('discr', (v,), ('i', True, 64))

    # -------- numeric
    def binop(self, st, o, a, b, ta, tb, checked):
        if isinstance(a, Gated) or isinstance(b, Gated):
            if isinstance(a, Gated):
                return self.gate_join([(g, self.binop(st, o, x, b, ta, tb, checked)) for g, x in a.alts])
            return self.gate_join([(g, self.binop(st, o, a, x, ta, tb, checked)) for g, x in b.alts])
        base = o
        withov = False
        for suf in ('WithOverflow', 'Unchecked'):
            if base.endswith(suf):
                base = base[:-len(suf)]
                withov = suf == 'WithOverflow'
        nt = self.numty(ta) if ta is not None else None
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(st, base, a, b, nt)
        if base == 'Cmp':
            a, b = self.as_int(a), self.as_int(b)
            l, e = lt(a, b), eq(a, b)
            return Enum([(0, -1, l, ()), (1, 0, band(bnot(l), e), ()), (2, 1, band(bnot(l), bnot(e)), ())])
        if isinstance(a, Bdd) and isinstance(b, Bdd):
            if base == 'BitAnd':
                return band(a, b)
            if base == 'BitOr':
                return bor(a, b)
            if base == 'BitXor':
                return bxor(a, b)
        if base == 'Offset':
            if isinstance(a, Ref):
                return self.ptr_offset(a, self.as_int(b))
            return Opq('offset', (a, b))
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if not isinstance(a, Poly) and not isinstance(b, Poly) and nt is None:
                return Opq('bin' + o, (a, b))
            a, b = self.as_int(a), self.as_int(b)
        if nt is not None and nt[0] == 'f':
            return self.fbin(base, a, b, nt[1])
        r = self.ibin(st, base, a, b, nt, 'Unchecked' in o)
        if checked or withov:
            ov, val = r if isinstance(r, tuple) else (FALSE, r)
            return Agg((val, ov))
        if isinstance(r, tuple):
            ov, val = r
            if ov is FALSE or 'Unchecked' in o:
                return val
            if st.ctx().refuted(ov):
                return val
            return self.wrap(val, nt)
        return r

    def wrap(self, val, nt):
        lo, hi = int_range(nt)
        l, h = interval(val)
        if l is not None and h is not None and l >= lo and h <= hi:
            return val
        c = val.cval()
        if c is not None:
            c = int(c) & ((1 << nt[2]) - 1)
            if nt[1] and c >= 1 << (nt[2] - 1):
                c -= 1 << nt[2]
            return C(c)
        if not nt[1] and l is not None and l >= 0:
            return irem(val, C(1 << nt[2]))
        a = find_ite(val)
        if a is not None and T._ite_count(val) <= 3:
            g, x, y = a.args
            return ite(g, self.wrap(T.poly_replace(val, a.id, x), nt), self.wrap(T.poly_replace(val, a.id, y), nt))
        return op('wrap', (val, nt), nt)

    def overflow(self, val, nt):
        lo, hi = int_range(nt)
        return bor(lt(val, C(lo)), lt(C(hi), val))

    def ibin(self, st, base, a, b, nt, unchecked=False):
        if nt is None:
            nt = ('i', False, 64)
        signed, bits = nt[1], nt[2]
        if base == 'Add':
            v = a + b
            return self.overflow(v, nt), v
        if base == 'Sub':
            v = a - b
            return self.overflow(v, nt), v
        if base == 'Mul':
            v = a * b
            if b.cval() is None and a.cval() is None:
                # distribute over a single ite for precision
                x = find_ite(a)
                if x is not None and T._ite_count(a) == 1 and T._ite_count(b) == 0:
                    g, p, q = x.args
                    v = ite(g, T.poly_replace(a, x.id, p) * b, T.poly_replace(a, x.id, q) * b)
                else:
                    x = find_ite(b)
                    if x is not None and T._ite_count(b) == 1 and T._ite_count(a) == 0:
                        g, p, q = x.args
                        v = ite(g, T.poly_replace(b, x.id, p) * a, T.poly_replace(b, x.id, q) * a)
            return self.overflow(v, nt), v
        if base == 'Div':
            return idiv(a, b)
        if base == 'Rem':
            cb = b.cval()
            ia = interval(a)
            if cb is not None and ia[0] is not None and ia[0] >= 0 and ia[1] is not None and ia[1] < cb:
                return a
            ctx = st.ctx()
            if ia[0] is not None and ia[0] >= 0 and len(a.t) <= 4 and ctx.holds(lt(a, b)):
                return a
            return irem(a, b)
        if base == 'Shl':
            cb = b.cval()
            if cb is not None:
                cb = int(cb) % bits
                v = a * (1 << cb)
                return self.wrap(v, nt)
            return op('shl', (a, b, nt), nt)
        if base == 'Shr':
            cb = b.cval()
            if cb is not None:
                cb = int(cb) % bits
                l, h = interval(a)
                if l is not None and l >= 0:
                    return idiv(a, C(1 << cb))
                if a.cval() is not None:
                    return C(int(a.cval()) >> cb)
            return op('shr', (a, b, nt), nt)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(st, base, a, b, nt)
        return op('i' + base, (a, b), nt)

    def bitop(self, st, base, a, b, nt):
        ca, cb = a.cval(), b.cval()
        if ca is not None and cb is not None and ca >= 0 and cb >= 0:
            ca, cb = int(ca), int(cb)
            return C(ca & cb if base == 'BitAnd' else ca | cb if base == 'BitOr' else ca ^ cb)
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        full = (1 << nt[2]) - 1
        for x, y, flip in ((a, b, False), (b, a, True)):
            it = find_ite(x)
            if it is not None and T._ite_count(x) == 1 and it.args[1].cval() is not None and it.args[2].cval() is not None:
                g, p, q = it.args
                return ite(g, self.bitop(st, base, T.poly_replace(x, it.id, p), y, nt), self.bitop(st, base, T.poly_replace(x, it.id, q), y, nt))
        if base == 'BitAnd':
            if cb is not None:
                cb = int(cb) & full
                if cb == 0:
                    return ZERO
                if cb == full:
                    return a
                l, h = interval(a)
                if l is not None and l >= 0:
                    # contiguous mask
                    s = (cb & -cb).bit_length() - 1
                    w = cb >> s
                    if w & (w + 1) == 0:
                        e = s + w.bit_length()
                        x = idiv(a, C(1 << s))
                        if h is None or h >= (1 << e):
                            x = x - (1 << (e - s)) * idiv(a, C(1 << e))
                        return x * (1 << s)
            if a == b:
                return a
        if base == 'BitOr':
            if cb == 0:
                return a
            if a == b:
                return a
            r = self.disjoint_or(st, a, b)
            if r is not None:
                return r
        if base == 'BitXor':
            if cb == 0:
                return a
            if a == b:
                return ZERO
            if cb is not None and int(cb) == full and not nt[1]:
                return full - a
        name = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[base]
        args = []
        for x in (a, b):
            at = x.as_atom()
            if at is not None and at.kind == 'op' and at.args[0] == name:
                args.extend(at.args[1:])
            else:
                args.append(x)
        if base == 'BitXor':
            odd = []
            for x in args:
                if x in odd:
                    odd.remove(x)
                else:
                    odd.append(x)
            if len(odd) < 2:
                return odd[0] if odd else ZERO
            args = odd
        args = tuple(sorted(args, key=hash))
        lo, hi = int_range(nt)
        if not nt[1]:
            hs = [interval(x)[1] for x in args]
            if base == 'BitAnd':
                hh = [h for h in hs if h is not None]
                if hh:
                    hi = min([hi] + hh)
            elif all(h is not None for h in hs):
                hi = min(hi, (1 << max(int(h) for h in hs).bit_length()) - 1)
        return op(name, args, nt, lo, hi)

    def disjoint_or(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            l, h = interval(y)
            if l is None or l < 0:
                continue
            tz = T.trailing_zeros(x)
            if tz == 0:
                continue
            if h is not None and h < (1 << tz):
                return x + y
            if st is not None and st.ctx().holds(lt(y, C(1 << tz))):
                return x + y
            # y = constant with only high disjoint bits handled by caller splitting
        # split a sum with a constant bit: (x + c) | d with disjoint constants
        ca, cb = a.cval(), b.cval()
        if cb is not None and cb > 0:
            k = int(cb)
            # every coefficient of a either multiple of 2^(msb+1) or total of the rest below lsb
            low = {}
            high = {}
            msb = k.bit_length()
            for m, c in a.t:
                if isinstance(c, int) and c % (1 << msb) == 0:
                    high[m] = c
                else:
                    low[m] = c
            lp, hp = Poly.make(low), Poly.make(high)
            l, h = interval(lp)
            lsb = (k & -k)
            if l is not None and l >= 0:
                if (h is not None and h < lsb) or (st is not None and st.ctx().holds(lt(lp, C(lsb)))):
                    return a + b
        return None

    def fbin(self, base, a, b, bits):
        ca, cb = fval(a), fval(b)
        if ca is not None and cb is not None:
            try:
                if base == 'Add':
                    return fconst(round_f(ca + cb, bits))
                if base == 'Sub':
                    return fconst(round_f(ca - cb, bits))
                if base == 'Mul':
                    return fconst(round_f(ca * cb, bits))
            except OverflowError:
                pass
        if base == 'Add':
            return a + b
        if base == 'Sub':
            return a - b
        if base == 'Mul':
            if len(a.t) * len(b.t) > 400:
                return op('fmul', (a, b), F64)
            return a * b
        if base == 'Div':
            return fdiv(a, b, bits)
        return op('f' + base, (a, b), F64)

    def compare(self, st, o, a, b, nt):
        if isinstance(a, Bdd) and isinstance(b, Bdd):
            if o == 'Eq':
                return bnot(bxor(a, b))
            if o == 'Ne':
                return bxor(a, b)
            if o == 'Lt':
                return band(bnot(a), b)
            return bop('cmp' + o, (a, b))
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            if isinstance(a, Enum) and isinstance(b, Enum):
                a, b = a.discr(), b.discr()
            elif isinstance(a, Ref) and isinstance(b, Ref):
                if o in ('Eq', 'Ne'):
                    e = self.ref_eq(a, b)
                    return e if o == 'Eq' else bnot(e)
                return bop('ptr' + o, (a, b))
            else:
                if o == 'Ne':
                    return bnot(bop('Eq', tuple(sorted((a, b), key=hash))))
                if o == 'Eq':
                    return bop('Eq', tuple(sorted((a, b), key=hash)))
                return bop('cmp' + o, (a, b))
        if nt is not None and nt[0] == 'f':
            d = a - b
            if o == 'Lt':
                return flt0(d)
            if o == 'Le':
                return fle0(d)
            if o == 'Gt':
                return flt0(-d)
            if o == 'Ge':
                return fle0(-d)
            if o == 'Eq':
                return feq0(d)
            return bnot(feq0(d))
        if o == 'Lt':
            return lt(a, b)
        if o == 'Le':
            return le(a, b)
        if o == 'Gt':
            return lt(b, a)
        if o == 'Ge':
            return le(b, a)
        if o == 'Eq':
            return eq(a, b)
        return bnot(eq(a, b))

    def ref_eq(self, a, b):
        if a == b:
            return TRUE
        if a.obj != b.obj:
            return FALSE
        if a.path == b.path and a.view is not None and b.view is not None:
            return eq(a.view[0], b.view[0])
        return bop('ptreq', (a, b))

    def ptr_offset(self, r, n):
        if r.view is not None:
            return Ref(r.obj, r.path, (r.view[0] + n, r.view[1] - n), r.dyn)
        if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'x':
            return Ref(r.obj, r.path[:-1] + (('x', r.path[-1][1] + n),), None, r.dyn)
        return Ref(r.obj, r.path + (('x', n),), None, r.dyn)

    def cast(self, st, kind, v, ts, td):
        if isinstance(v, Gated) and not kind.startswith('PointerCoercion(Reify'):
            return self.gate_join([(g, self.cast(st, kind, x, ts, td)) for g, x in v.alts])
        if kind == 'IntToInt':
            if isinstance(v, Bdd):
                return ite(v, ONE, ZERO)
            v = self.as_int(v)
            nt = self.numty(td)
            if nt is None:
                return v
            lo, hi = int_range(nt)
            l, h = interval(v)
            if l is not None and h is not None and l >= lo and h <= hi:
                return v
            if not isinstance(v, Poly):
                return v
            ctx = st.ctx()
            if v.cval() is None and ctx.holds(band(le(C(lo), v), le(v, C(hi)))):
                return v
            return self.wrap(v, nt)
        if kind == 'IntToFloat':
            v = self.as_int(v)
            c = v.cval()
            if c is not None:
                return fconst(round_f(float(c), self.numty(td)[1]))
            return v
        if kind == 'FloatToInt':
            return self.f2i(v, self.numty(td))
        if kind == 'FloatToFloat':
            nt = self.numty(td)
            c = fval(v)
            if c is not None:
                return fconst(round_f(c, nt[1]))
            return v
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(st, v, ts, td)
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(UnsafeFnPointer'):
            return v
        if kind.startswith('PointerCoercion(ClosureFnPointer'):
            b = self.ty[ts].get('body')
            return FnVal(b) if b is not None else v
        if kind in ('Transmute', 'PtrToPtr', 'BoxDerefTransmute', 'Subtype', 'FnPtrToPtr') or kind.startswith('PointerCoercion(MutToConst') or kind.startswith('PointerCoercion(ArrayToPointer'):
            if kind == 'Transmute':
                a, b = self.numty(ts), self.numty(td)
                if a and b and a != b and isinstance(v, Poly):
                    if a[0] == 'i' and b[0] == 'i' and a[2] == b[2]:
                        return self.wrap(v, b)
                    return op('bits', (v, a, b), b)
            if isinstance(v, Ref) and self.kind(td) in ('ptr', 'ref') and self.kind(ts) in ('ptr', 'ref'):
                a, b = self.pointee_kind(ts), self.pointee_kind(td)
                if a in ('slice', 'array') and b not in ('slice', 'array') and v.view is not None and kind == 'PtrToPtr':
                    return Ref(v.obj, v.path + (('x', v.view[0]),), None)
            return v
        if kind == 'PointerExposeProvenance':
            return op('addr', (v,), USIZE)
        return Opq('cast' + kind, (v,))

    def f2i(self, v, nt):
        c = fval(v) if isinstance(v, Poly) else None
        lo, hi = int_range(nt)
        if c is not None:
            return C(max(lo, min(hi, int(c))))
        v = self.as_int(v)
        at = v.as_atom()
        lo, hi = interval(v)
        tl, th = int_range(nt)
        lo = tl if lo is None else max(tl, min(th, math.trunc(lo)))
        hi = th if hi is None else max(tl, min(th, math.trunc(hi)))
        return op('f2i', (v, nt), nt, lo, hi)

    def unsize(self, st, v, ts, td):
        if isinstance(v, Ref):
            to = self.ty[ts].get('to')
            tt = self.ty[td].get('to')
            if to is not None and self.kind(to) == 'array' and tt is not None and self.kind(tt) == 'slice':
                n = self.ty[to]['len']
                return Ref(v.obj, v.path, (ZERO, C(n) if n is not None else self.seq_len(st, v.obj, v.path)))
            if tt is not None and self.kind(tt) == 'dyn':
                return Ref(v.obj, v.path, v.view, (to, tt))
            return v
        if isinstance(v, BoxV):
            if self.ty[ts]['k'] == 'adt':
                a, b = self.targ(ts), self.targ(td)
                if self.kind(b) == 'dyn':
                    return BoxV(v.inner, (a, b))
            return v
        return v

    # ------------------------------------------------------------ execution
    def call(self, idx, args, st, ctx, span=None, retty=None, caller=None):
        """-> (state, value) or (None, None)"""
        inst = self.p.inst[idx]
        if retty is None and inst.get('body'):
            retty = inst['body']['locals'][0]
        call = Call(inst, ctx, span, retty, idx, caller)
        self.stats['calls'] += 1
        h = self.intercept.get(idx)
        if h is not None:
            r = h(self, st, args, call)
            if r is not NotImplemented:
                return r
        r = self.natives.dispatch(self, st, inst, args, call)
        if r is not NotImplemented:
            self.stats['natives'].add(inst['path'])
            return r
        if inst['kind'].startswith('virtual:'):
            return self.virtual(idx, inst, args, st, call)
        body = inst.get('body')
        if body is None:
            return self.extern(inst, args, st, call)
        if self.depth > self.MAXDEPTH:
            raise Limit('inlining depth')
        return self.exec_body(idx, args, st, call)

    def extern(self, inst, args, st, call):
        if self.external is not None:
            r = self.external(self, st, inst, args, call)
            if r is not None:
                return r
        return self.uf_call(inst, args, st, call)

    def snapshot(self, st, v, depth=0):
        """value with references replaced by what they point to (for uninterpreted calls)"""
        if depth > 6:
            return v
        if isinstance(v, Ref):
            x = self.deref_val(st, v)
            return Opq('&', (self.snapshot(st, x, depth + 1),))
        if isinstance(v, Agg):
            return Agg([self.snapshot(st, x, depth + 1) for x in v.f], v.ty)
        if isinstance(v, SeqV) and isinstance(v.arr, ArrList):
            return SeqV(ArrList([self.snapshot(st, x, depth + 1) for x in v.arr.vals]), v.len)
        return v

    def deref_val(self, st, r):
        """value a Ref designates; slices as SeqV"""
        v = self.walk(st, st.mem.get(r.obj, UNDEF), r.path)
        if isinstance(v, BoxV) and r.view is not None:
            v = v.inner
        if r.view is not None:
            if isinstance(v, SeqV):
                return SeqV(mkshift(v.arr, r.view[0]), r.view[1])
            if isinstance(v, Gated):
                return gated([(g, SeqV(mkshift(x.arr, r.view[0]), r.view[1]) if isinstance(x, SeqV) else x) for g, x in v.alts])
        return v

    def uf_call(self, inst, args, st, call, name=None):
        """deterministic uninterpreted function of its arguments (and of what they reference)"""
        nm = name or inst['path']
        self.stats['external'].add(nm)
        snaps = tuple(self.snapshot(st, a) for a in args)
        self.event('extern', st, name=nm, args=snaps, rawargs=tuple(args), span=call.span, inst=inst)
        # &mut arguments are overwritten
        tys = self.arg_types(inst, call)
        for i, a in enumerate(args):
            t = tys[i] if tys and i < len(tys) else None
            if t is not None and self.ty[t]['k'] in ('ref', 'ptr') and not self.ty[t].get('mut'):
                continue
            if t is None:
                continue
            self.clobber(st, a, t, nm + '.%d' % i, snaps)
        if call.retty is not None and self.kind(call.retty) == 'never':
            return None, None
        if call.retty is None:
            return st, Opq(nm, snaps)
        return st, self.build(call.retty, UfGen(self, st, nm, snaps))

    def clobber(self, st, a, t, nm, snaps, depth=0):
        if isinstance(a, Gated):
            for g, x in a.alts:
                self.clobber(st, x, t, nm, snaps, depth)
            return
        if not isinstance(a, Ref) or depth > 3:
            return
        to = self.ty[t].get('to') if t is not None else None
        old = self.walk(st, st.mem.get(a.obj, UNDEF), a.path)
        if a.view is not None and isinstance(old, (SeqV, BoxV)):
            s = old.inner if isinstance(old, BoxV) else old
            if not isinstance(s, SeqV):
                return
            ety = self.ty[to].get('elem') if to is not None and self.kind(to) == 'slice' else None
            src = ArrOp(nm, snaps, ety if ety is not None else None)
            whole = a.view[0] == ZERO and a.view[1] == s.len
            arr = src if whole else mkcopy(s.arr, a.view[0], a.view[1], src, ZERO)
            n = SeqV(arr, s.len)
            self.write_to(st, [(TRUE, a.obj, a.path, None, None)], BoxV(n, old.dyn) if isinstance(old, BoxV) else n)
            return
        if to is not None and self.kind(to) not in ('dyn', 'other'):
            new = self.build(to, UfGen(self, st, nm, snaps))
        else:
            new = Opq(nm, snaps)
        self.write_to(st, [(TRUE, a.obj, a.path, None, None)], new)

    def arg_types(self, inst, call):
        return call.argtys if hasattr(call, 'argtys') else None

    def virtual(self, idx, inst, args, st, call):
        n = int(inst['kind'].split(':')[1])
        recv = args[0]

        def one(st, recv):
            dyn = None
            if isinstance(recv, Ref):
                dyn = recv.dyn
                if dyn is None:
                    v = self.walk(st, st.mem.get(recv.obj, UNDEF), recv.path[:-1]) if recv.path and recv.path[-1] == 'b' else None
                    if isinstance(v, BoxV):
                        dyn = v.dyn
            elif isinstance(recv, BoxV):
                dyn = recv.dyn
            if dyn is not None:
                vt = self.p.dyns.get(tuple(dyn))
                if vt is None:
                    for e in self.p.dyn_by_src.get(dyn[0], []):
                        if e['dyn'] == dyn[1] or len(self.p.dyn_by_src[dyn[0]]) == 1:
                            vt = e['vtable']
                if vt is not None and n < len(vt) and vt[n]:
                    return self.call(vt[n][0], args, st, call.ctx, call.span, call.retty, call.caller)
            return self.extern(inst, args, st, call)
        return one(st, recv)

    def exec_body(self, idx, args, st, call):
        inst = self.p.inst[idx]
        body = inst['body']
        fr = Frame()
        fr.inst = inst
        fr.id = ctx_intern((call.ctx, idx))
        fr.body = body
        fr.iters = ()
        fr.cfg = self.p.cfg(idx)
        fr.ntmp = 0
        self.stats['functions'].add(inst['path'])
        self.frame_bodies[fr.id] = body
        # arguments
        argc = body['argc']
        args = list(args)
        if body.get('spread') is not None:
            sp = body['spread']
            # args from position sp-1 on are already a tuple in the caller's view
            pass
        if args and isinstance(args[-1], Agg) and args[-1].ty is not None and len(args) == argc and len(args[-1].f) == 1 and self.kind(args[-1].ty) == 'tuple' \
                and body['locals'][argc] != args[-1].ty and self.kind(body['locals'][argc]) != 'tuple':
            args = args[:-1] + [args[-1].f[0]]
        if len(args) != argc:
            # rust-call: last argument is a tuple
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == argc:
                args = args[:-1] + list(args[-1].f)
            elif len(args) < argc:
                args = args + [UNDEF] * (argc - len(args))
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.depth += 1
        try:
            outs = self.exec_region(fr, fr.cfg.reach, 0, st, None)
        finally:
            self.depth -= 1
        s = outs.get('ret')
        if s is None:
            return None, None
        rv = s.mem.get((fr.id, 0), UNDEF)
        fid = fr.id
        for i in range(len(body['locals'])):
            s.mem.pop((fid, i), None)
        if rv is UNDEF:
            rt = body['locals'][0]
            if self.kind(rt) == 'tuple' and not self.ty[rt]['elems']:
                rv = Agg((), rt)
        return s, rv

    def exec_region(self, fr, region, entry, st, header):
        pend = {entry: st}
        outs = {}
        loops = fr.cfg.loops

        def emit(t, s):
            if t == header and header is not None:
                outs['back'] = merge_states(outs.get('back'), s)
            elif t in region:
                pend[t] = merge_states(pend.get(t), s)
            else:
                outs[t] = merge_states(outs.get(t), s)
        for b in fr.cfg.rpo:
            if b not in region:
                continue
            s = pend.pop(b, None)
            if s is None:
                continue
            if b in loops and b != header:
                for t, s2 in self.run_loop(fr, b, s).items():
                    emit(t, s2)
            else:
                for t, s2 in self.exec_block(fr, b, s):
                    emit(t, s2)
        return outs

    def exec_block(self, fr, b, st):
        self.nblocks += 1
        if self.nblocks > self.max_blocks:
            raise Limit('too many blocks')
        stmts, term, tspan = fr.body['blocks'][b]
        fid = fr.id
        for s in stmts:
            k = s[0]
            if k == '=':
                pl = s[1]
                v = self.rvalue(fr, st, s[2], fr.body['locals'][pl[0]] if len(pl) == 1 else None)
                if len(pl) == 1:
                    st.mem[(fid, pl[0])] = v
                else:
                    self.write_place(fr, st, pl, v)
            elif k == 'setd':
                v, ty = self.read_place(fr, st, s[1])
                x = self.ty[ty]
                if isinstance(v, Enum):
                    f = v.fields(s[2]) or ()
                else:
                    f = ()
                self.write_place(fr, st, s[1], Enum([(s[2], x['variants'][s[2]]['discr'], TRUE, f)], ty))
            elif k == 'copy':
                self.natives.copy_nonoverlapping(self, st, self.operand(fr, st, s[1])[0], self.operand(fr, st, s[2])[0], self.operand(fr, st, s[3])[0])
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            return [(term[2], st)]
        if k == 'switch':
            return self.do_switch(fr, st, term)
        if k == 'call':
            return self.do_call(fr, b, st, term, tspan)
        if k == 'assert':
            c, _ = self.operand(fr, st, term[1])
            c = self.as_bool(c)
            if not term[2]:
                c = bnot(c)
            c2 = st.ctx().simplify(c)
            if c2 is TRUE or term[3][0] == 'other':
                return [(term[4], st)]
            self.event('panic', st, cond=bnot(c2), what=term[3][0] + (':' + str(term[3][1]) if term[3][0] == 'overflow' else ''), span=tspan, fn=fr.inst['path'], site=fr.inst)
            if c2 is FALSE:
                return []
            st.add_assume(c2)
            return [(term[4], st)]
        return []

    def do_switch(self, fr, st, term):
        v, ty = self.operand(fr, st, term[1])
        outs = []
        rest = TRUE
        ctx = st.ctx()
        isb = isinstance(v, Bdd)
        if isinstance(v, Gated):
            v = self.gate_join([(g, self.as_int(x)) for g, x in v.alts])
        br = []
        for val, b in term[2]:
            val = int(val)
            if isb:
                g = v if val == 1 else bnot(v)
            else:
                pv = self.as_int(v)
                # negative discriminants are given as unsigned
                nt = self.numty(ty)
                if nt and nt[1] and val >= 1 << (nt[2] - 1):
                    val -= 1 << nt[2]
                g = eq(pv, C(val))
            g = band(g, rest)
            g2 = ctx.simplify(g)
            if g2 is not FALSE:
                br.append((b, g2))
            rest = band(rest, bnot(g))
            if g2 is TRUE:
                rest = FALSE
                break
        if term[3] is not None and rest is not FALSE:
            g2 = ctx.simplify(rest)
            if g2 is not FALSE:
                br.append((term[3], g2))
        # unreachable targets
        if len(br) == 1:
            b, g = br[0]
            st.add_pc(g)
            return [(b, st)]
        for b, g in br:
            s = st.fork()
            s.pc = band(st.pc, g)
            outs.append((b, s))
        return outs

    def do_call(self, fr, b, st, term, tspan):
        f, fty, argo, dest, target, dty = term[1], term[2], term[3], term[4], term[5], term[6]
        args = []
        atys = []
        for o in argo:
            v, t = self.operand(fr, st, o)
            args.append(v)
            atys.append(t)
        x = self.ty[fty]
        ctx = ctx_intern((fr.id, fr.iters, b))
        if x['k'] == 'fndef' and x['inst'] is not None:
            targets = [(TRUE, x['inst'])]
        elif x['k'] == 'fndef':
            targets = [(TRUE, None)]
        else:
            fv, _ = self.operand(fr, st, f)
            if isinstance(fv, FnVal):
                targets = [(TRUE, fv.inst)]
            elif isinstance(fv, Gated):
                targets = [(g, y.inst if isinstance(y, FnVal) else None) for g, y in fv.alts]
            else:
                targets = [(TRUE, None)]
        res = None
        for g, idx in targets:
            if g is TRUE:
                s = st
            else:
                g2 = st.ctx().simplify(g)
                if g2 is FALSE:
                    continue
                s = st.fork()
                s.add_pc(g2)
            if idx is None:
                if x['k'] == 'fndef':
                    nm = x.get('path', 'fn')
                else:
                    nm = 'fnptr'
                call = Call({'path': nm, 'kind': 'item', 'crate': '?', 'name': nm, 'args': []}, ctx, tspan, dty)
                call.argtys = atys
                s2, rv = self.extern(call.inst, args, s, call)
            else:
                c = ctx if len(targets) == 1 else ctx_intern((ctx, 'alt', idx))
                s2, rv = self.call_t(idx, args, atys, s, c, tspan, dty, fr)
            if s2 is None or target is None:
                continue
            cur, ty = self.resolve(fr, s2, dest)
            self.write_to(s2, cur, rv)
            res = merge_states(res, s2)
        if res is None or target is None:
            return []
        return [(target, res)]

    def call_t(self, idx, args, atys, st, ctx, span, dty, fr):
        inst = self.p.inst[idx]
        call = Call(inst, ctx, span, dty, idx, fr)
        call.argtys = atys
        self.stats['calls'] += 1
        h = self.intercept.get(idx)
        if h is not None:
            r = h(self, st, args, call)
            if r is not NotImplemented:
                return r
        r = self.natives.dispatch(self, st, inst, args, call)
        if r is not NotImplemented:
            self.stats['natives'].add(inst['path'])
            return r
        if inst['kind'].startswith('virtual:'):
            return self.virtual(idx, inst, args, st, call)
        if inst.get('body') is None:
            return self.extern(inst, args, st, call)
        if self.depth > self.MAXDEPTH:
            raise Limit('inlining depth')
        return self.exec_body(idx, args, st, call)

    # ------------------------------------------------------------ callables
    def call_fn(self, st, f, args, ctx, span=None, tmp=None):
        """call closure / fn value f with argument list; f may be a Ref to a closure. -> (st, v)"""
        if isinstance(f, Gated):
            res = None
            rv = None
            for g, x in f.alts:
                g2 = st.ctx().simplify(g)
                if g2 is FALSE:
                    continue
                s = st.fork()
                s.add_pc(g2)
                s2, v = self.call_fn(s, x, args, ctx_intern((ctx, 'g', x)), span)
                if s2 is None:
                    continue
                s2.mem[('rv', ctx)] = v
                res = merge_states(res, s2)
            if res is None:
                return None, None
            return res, res.mem.pop(('rv', ctx))
        if isinstance(f, FnVal):
            return self.call(f.inst, args, st, ctx_intern((ctx, 'fn')), span)
        if isinstance(f, Ref):
            v = self.deref_val(st, f)
            if isinstance(v, (FnVal, Gated, Ref)):
                return self.call_fn(st, v, args, ctx, span)
            if isinstance(v, Agg) and v.ty is not None and self.kind(v.ty) == 'closure':
                b = self.ty[v.ty]['body']
                if b is None:
                    raise Unsupported('closure without body')
                t0 = self.p.inst[b]['body']['locals'][1]
                selfarg = f if self.kind(t0) in ('ref', 'ptr') else v
                return self.call(b, [selfarg] + list(args), st, ctx_intern((ctx, 'fn')), span)
        if isinstance(f, Agg) and f.ty is not None and self.kind(f.ty) == 'closure':
            b = self.ty[f.ty]['body']
            if b is None:
                raise Unsupported('closure without body')
            t0 = self.p.inst[b]['body']['locals'][1]
            if self.kind(t0) in ('ref', 'ptr'):
                o = ('clo', ctx)
                st.mem[o] = f
                self.objty[o] = f.ty
                s, v = self.call(b, [Ref(o)] + list(args), st, ctx_intern((ctx, 'fn')), span)
                if s is not None:
                    s.mem.pop(o, None)
                return s, v
            return self.call(b, [f] + list(args), st, ctx_intern((ctx, 'fn')), span)
        raise Unsupported('call of %s' % type(f).__name__)

    # ------------------------------------------------------------ loops
    def run_loop(self, fr, header, st):
        region = fr.cfg.loops[header]
        saved = fr.iters

        def body(s, label):
            fr.iters = saved + ((header, label),)
            try:
                return self.exec_region(fr, region, header, s, header)
            finally:
                fr.iters = saved
        from .loops import do_loop
        return do_loop(self, st, body, ctx_intern((fr.id, saved, 'loop', header)), fr.inst['path'] + ':' + str(fr.body['blocks'][header][2]), region=region, fr=fr)


def idx_key(p):
    return T.show(p)


def map_gated_join(I, v, f):
    if isinstance(v, Gated):
        return I.gate_join([(g, f(x)) for g, x in v.alts])
    return f(v)


# ---------------------------------------------------------------- leaf generators
class SymGen:
    def __init__(self, I, st, name):
        self.I = I
        self.st = st
        self.name = name

    def nm(self, proj):
        return '.'.join((self.name,) + tuple(proj))

    def bool(self, proj):
        return bsym(self.nm(proj))

    def num(self, ty, proj):
        return sym(self.nm(proj), ty)

    def len(self, proj):
        return sym(self.nm(proj) + '.len', USIZE, 0, (1 << 48))

    def arr(self, elty, proj):
        return ArrSym(self.nm(proj), elty)

    def opq(self, proj, t):
        return Opq('sym', (sym(self.nm(proj), ('opq',)),))

    def ref(self, I, to, proj):
        o = ('obj', self.nm(proj))
        if o not in self.st.mem:
            self.st.mem[o] = I.build(to, self, proj)
            I.objty[o] = to
        v = self.st.mem[o]
        if I.kind(to) == 'slice':
            return Ref(o, (), (ZERO, v.len))
        return Ref(o)


class UfGen:
    """leaves are uninterpreted functions of args"""
    def __init__(self, I, st, name, args):
        self.I = I
        self.st = st
        self.name = name
        self.args = tuple(args)

    def num(self, ty, proj):
        return op('uf', (self.name, proj, self.args), ty)

    def len(self, proj):
        return op('uf', (self.name, proj + ('len',), self.args), USIZE, 0, 1 << 48)

    def bool(self, proj):
        return bop('uf', (self.name, proj, self.args))

    def arr(self, elty, proj):
        return ArrOp('.'.join((self.name,) + proj), self.args, elty)

    def opq(self, proj, t):
        if not proj:
            return Opq(self.name, self.args)
        return Opq('.'.join((self.name,) + proj), self.args)

    def ref(self, I, to, proj):
        o = ('uf', self.name, proj, self.args)
        if o not in self.st.mem:
            self.st.mem[o] = I.build(to, self, proj + ('*',))
            I.objty[o] = to
        v = self.st.mem[o]
        if I.kind(to) == 'slice' and isinstance(v, SeqV):
            return Ref(o, (), (ZERO, v.len))
        return Ref(o)


class ElemGen:
    def __init__(self, I, arr, idx):
        self.I = I
        self.arrt = arr
        self.idx = idx

    def num(self, ty, proj):
        lo, hi = int_range(ty)
        return Poly.atom(T._atom('elem', (self.arrt, self.idx, proj), ty, lo, hi))

    def len(self, proj):
        return Poly.atom(T._atom('elem', (self.arrt, self.idx, proj + ('len',)), USIZE, 0, 1 << 48))

    def bool(self, proj):
        return bop('elem', (self.arrt, self.idx, proj))

    def arr(self, elty, proj):
        return ArrOp('elem', (self.arrt, self.idx, proj), elty)

    def opq(self, proj, t):
        return Opq('elem', (self.arrt, self.idx, proj))

    def ref(self, I, to, proj):
        return Opq('elem', (self.arrt, self.idx, proj))


_INTERP = [None]


def _elem_subst(S, a):
    arr = S.any(a.args[0])
    idx = S.poly(a.args[1])
    I = _INTERP[0]
    v = I.select(arr, idx, Ctx())
    return project(I, v, a.args[2], a)


def project(I, v, proj, a):
    for p in proj:
        if isinstance(v, Agg):
            if v.ty is not None and not p.isdigit():
                names = [n for n, t in I.ty[v.ty]['variants'][0]['fields']]
                v = v.f[names.index(p)]
            else:
                v = v.f[int(p)]
        elif p == 'len' and isinstance(v, SeqV):
            v = v.len
        else:
            return op('proj', (v,) + tuple(proj), a.ty, a.lo, a.hi)
    if isinstance(v, Poly):
        return v
    return op('proj', (v,) + tuple(proj), a.ty, a.lo, a.hi)


T.set_elem_subst(_elem_subst)
T.rebuilder('wrap')(lambda args, ty: _INTERP[0].wrap(args[0], args[1]))


@T.rebuilder('or')
def _rb_or(args, ty):
    return _bits('BitOr', args, ty)


@T.rebuilder('and')
def _rb_and(args, ty):
    return _bits('BitAnd', args, ty)


@T.rebuilder('xor')
def _rb_xor(args, ty):
    return _bits('BitXor', args, ty)


def _bits(o, args, ty):
    r = args[0]
    st = State()
    for x in args[1:]:
        r = _INTERP[0].bitop(st, o, r, x, ty)
    return r


@T.rebuilder('f2i')
def _rb_f2i(args, ty):
    return _INTERP[0].f2i(args[0], args[1])


def new_interp(prog, **kw):
    I = Interp(prog, **kw)
    _INTERP[0] = I
    return I
